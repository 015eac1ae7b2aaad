import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close, Raw
from pbt import gen
from .c13 import netpart, groups_of

PROPERTY = 'C15'
T_NON, T_HUB = (0.05, 0.62, 0.80), (0.30, 0.75)

def role(P, z):
    if z < 2.5: return sum(P >= t for t in T_NON)
    return 4 + sum(P >= t for t in T_HUB)

def roles_ok(P, z, eps=1e-9):
    return {role(p, y) for p in (P - eps, P + eps) for y in (z - eps * 1e3, z + eps * 1e3)}

def metrics(n, W, mem):
    """participation, within-module z per node, from a symmetric weight map"""
    P, z = [0.0] * n, [0.0] * n
    nb = [[(v, W[(u, v)]) for v in range(n) if (u, v) in W] for u in range(n)]
    inn = [sum(w for v, w in nb[u] if mem[v] == mem[u]) for u in range(n)]
    for u in range(n):
        s = sum(w for _, w in nb[u])
        if nb[u]:
            t = {}
            for v, w in nb[u]: t[mem[v]] = t.get(mem[v], 0) + w
            P[u] = 1 - sum(x * x for x in t.values()) / (s * s)
        grp = [inn[v] for v in range(n) if mem[v] == mem[u]]
        mu = math.fsum(grp) / len(grp)
        sd = math.sqrt(max(0.0, math.fsum((x - mu) ** 2 for x in grp) / len(grp)))
        z[u] = 0.0 if sd < 1e-7 * max(1.0, abs(mu)) else (inn[u] - mu) / sd
    return P, z

@st.composite
def hubs(draw):
    """Modules with hubs: every node range and hub role can appear."""
    k = draw(st.sampled_from([1, 2, 3, 4, 6, 8]))
    mem, first = [], []
    for i in range(k):
        first.append(len(mem)); mem += [i] * draw(st.integers(6, 14) if k < 6 else st.sampled_from([1, 2, 9, 10]))
    n = len(mem)
    es = set()
    for i in range(k):
        m = [u for u in range(n) if mem[u] == i]
        for u in m[1:draw(st.integers(5, 14))]: es.add((m[0], u))
        for _ in range(draw(st.integers(0, 6))): es.add((draw(st.sampled_from(m)), draw(st.sampled_from(m))))
    for _ in range(draw(st.integers(0, 30))):
        u = first[draw(st.integers(0, k - 1))] if draw(st.booleans()) else draw(st.integers(0, n - 1))
        es.add((u, draw(st.integers(0, n - 1))))
    if k > 3 and draw(st.booleans()):              # a few nodes linked evenly to all modules
        for u in draw(st.lists(st.sampled_from(first), max_size=3)):
            per = draw(st.integers(1, 9))
            for i in range(k):
                m = [v for v in range(n) if mem[v] == i]
                for v in m[:per]: es.add((u, v))
    es = sorted({(min(e), max(e)) for e in es if e[0] != e[1]})
    ws = draw(st.one_of(st.just([1.0] * len(es)), st.lists(st.sampled_from([.1, .2, .3, .7, 1., 2., 5.]), min_size=len(es), max_size=len(es))))
    return dict(g=dict(n=n, labels=gen.simple_labels(n), edges=[[u, v, w] for (u, v), w in zip(es, ws)]), k=k, mem=mem)

@st.composite
def any_case(draw):
    c = draw(st.one_of(netpart(1, 10, 20, exotic=False), hubs(), hubs()))
    if draw(st.integers(0, 3)) == 0:
        w = draw(st.sampled_from([0.1, 0.3, 0.7, 1.1]))      # equal, not exactly representable weights
        c['g']['edges'] = [[u, v, w] for u, v, _ in c['g']['edges']]
    return c

def run(ctx, c):
    g, k, mem = c['g'], c['k'], c['mem']
    n = g['n']
    r = ctx.ex('modules').call('roles', gen.net_args(g), k, mem)
    W = gen.wmap(g)
    P, z = metrics(n, {e: 1 for e in W}, mem)
    PW, zW = metrics(n, W, mem)
    for u in range(n):
        for what, got, want, tol in zip(('participation coefficient', 'weighted participation coefficient', 'within-module z', 'weighted within-module z'),
                                   r['v'][u], (P[u], PW[u], z[u], zW[u]), (1e-9, 1e-9, 1e-6, 1e-6)):
            eq('%s of node %d' % (what, u), got, want, tol)
    for key, p, y in (('roles', P, z), ('rolesw', PW, zW)):
        eq(key + ' labels', [x[0] for x in r[key]], list(range(7)))
        seen = {}
        for x in r[key]:
            eq('size of role group', x[1], len(x[3]))
            for nl, num, ref in x[3]:
                u = g['labels'].index(nl)
                check(u not in seen, 'node %d appears twice in %s', u, key)
                check(ref == u and num == u, 'role entry of node %d points to %d', u, ref)
                seen[u] = x[0]
                check(x[0] in roles_ok(p[u], y[u]), '%s: node %d with P=%r z=%r is in role %d', key, u, p[u], y[u], x[0])
        eq(key + ' coverage', len(seen), n)
        eq(key + ' node group numbers', r[key + '_in'], [seen[u] for u in range(n)])
        for x in set(seen.values()): ctx.label('role %d' % x)
    ctx.nontrivial(len(set(r['roles_in'])) > 1)

FACETS = [Facet('roles', any_case(), run, quick=4000, thorough=80000, exes=['modules'], rule='networks whose nodes take at least two different roles')]
FACETS += gen.larger(FACETS, roles=(200, 3000))
