import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from .c24 import bip, bargs, check_bip, emap
from .c15 import metrics, roles_ok

PROPERTY = 'C25'

@st.composite
def case(draw):
    kind = draw(st.sampled_from(['w', 'u', 'i']))
    b = draw(bip(7, 12, weighted=kind == 'w', exotic=False, min_edges=1))
    if kind == 'i': b['edges'] = [[u, a, float(draw(st.integers(1, 9)))] for u, a, w in b['edges']]
    n = len(b['l1'])
    k = draw(st.integers(1, n))
    return dict(b=b, k=k, mem=draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)))

def run(ctx, c):
    b, k, mem = c['b'], c['k'], c['mem']
    E = emap(b); n1, n2 = len(b['l1']), len(b['l2'])
    t = [[dict() for _ in range(n1)], [dict() for _ in range(n2)]]
    for (u, a), w in E.items(): t[0][u][a] = w; t[1][a][u] = w
    com = [[len(set(t[0][u]) & set(t[0][v])) for v in range(n1)] for u in range(n1)]
    sww = [[sum(w * t[0][v][a] for a, w in t[0][u].items() if a in t[0][v]) for v in range(n1)] for u in range(n1)]
    m = [len(x) for x in t[1]]; S = [sum(x.values()) for x in t[1]]
    d = [len(x) for x in t[0]]; s = [sum(x.values()) for x in t[0]]
    zu = sum(x * x - x for x in m); zw = sum(x * x for x in S) - sum(S)
    f = [[0.0] * n1 for _ in range(n1)]
    if zw > 1e-9: f = [[2 * (sww[u][v] / zw - s[u] * s[v] / sum(S) ** 2) for v in range(n1)] for u in range(n1)]
    r = ctx.ex('bipart').call('bmod', bargs(b), k, mem, f)
    pairs = [(u, v) for u in range(n1) for v in range(u) if mem[u] == mem[v]]
    if zu > 0:
        q = 2 * math.fsum(com[u][v] / zu - d[u] * d[v] / sum(m) ** 2 for u, v in pairs)
        check(abs(r['q'] - q) < 1e-9, 'bipartite modularity %r, expected %r', r['q'], q)
        ctx.label('modularity')
    if zw > 1e-6:
        q = math.fsum(f[u][v] for u, v in pairs)
        tol = 1e-9 * max(1.0, 1 / zw)
        check(abs(r['qw'] - q) < tol, 'weighted bipartite modularity %r, expected %r', r['qw'], q)
        check(abs(r['qf'] - q) < tol, 'weighted bipartite modularity (matrix version) %r, expected %r', r['qf'], q)
        ctx.label('weighted modularity')
    P = []
    for u in range(n1):
        cnt = {}
        for a in t[0][u]:
            for v in t[1][a]:
                if v != u: cnt[mem[v]] = cnt.get(mem[v], 0) + 1
        z = sum(cnt.values())
        if z == 0: ctx.label('no co-member')
        P.append(1 - sum(x * x for x in cnt.values()) / (z * z) if z else 0.0)
        check(close(r['P'][u], P[u], 1e-9), 'participation of %r is %r, expected %r', b['l1'][u], r['P'][u], P[u])
    mu = math.fsum(P) / n1
    sd = math.sqrt(math.fsum((x - mu) ** 2 for x in P) / n1)
    check(abs(r['stat'][1] - sd) < 1e-6, 'standard deviation of participation %r, expected %r', r['stat'][1], sd)
    eq('mean participation', r['stat'][0], mu, 1e-9)
    eq('smallest participation', r['stat'][2], min(P), 1e-9); eq('largest participation', r['stat'][3], max(P), 1e-9)
    # the table of roles in the projection
    for deg in (0, 1):
        for w in (0, 1):
            mat = com if w == 0 or deg else sww
            W = {(u, v): (1.0 if deg else mat[u][v]) for u in range(n1) for v in range(n1) if u != v and com[u][v]}
            P, z = metrics(n1, W, mem)
            rows = [x.split('\t') for x in r['tab%d%d' % (deg, w)].splitlines()]
            check(all(len(x) == 5 for x in rows), 'table rows %r', rows)
            got = {x[0].strip(): x for x in rows}
            eq('nodes of the table', sorted(x[0].strip() for x in rows), sorted(b['l1']))
            mods = {}
            for u, l in enumerate(b['l1']):
                x = got[l]
                eq('module of %r' % l, mods.setdefault(mem[u], int(x[1])), int(x[1]))
                check(1 <= int(x[1]) <= k, 'module number %s', x[1])
                check(abs(float(x[3]) - P[u]) < 2e-6, 'P of %r printed as %s, expected %r (degree=%d, weighted=%d)', l, x[3], P[u], deg, w)
                check(abs(float(x[4]) - z[u]) < 2e-6 * max(1, abs(z[u])), 'z of %r printed as %s, expected %r', l, x[4], z[u])
                check(x[2] in {'R%d' % (y + 1) for y in roles_ok(P[u], z[u])}, 'role of %r printed as %s with P=%r z=%r', l, x[2], P[u], z[u])
            eq('different modules have different numbers', len(set(mods.values())), len(mods))
    for l, size, cnt, nodes in r['part']:
        eq('members of group %d afterwards' % l, sorted(x[2] for x in nodes), [u for u in range(n1) if mem[u] == l])
    check_bip(r['net'], b['l1'], b['l2'], E, 'network afterwards')
    eq('group of every node afterwards', [x[2] for x in r['net']['s1']], mem)
    ctx.nontrivial(zu > 0 and len(set(mem)) > 1 and len(pairs) > 0)

FACETS = [Facet('measures', case(), run, quick=8000, thorough=150000, exes=['bipart'], rule='some team has two members; several modules; some module has two nodes')]
FACETS += gen.larger(FACETS, measures=(200, 3000))
