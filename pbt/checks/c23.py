from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from .c17 import check_state, bip_edges, projection
from .c18 import q_of
from .c19 import roles_of, check_roles

PROPERTY = 'C23'

@st.composite
def case(draw):
    c = draw(bip_edges(9, 9))
    c['k'] = draw(st.integers(1, c['n'])); c['mem'] = [draw(st.integers(0, c['k'] - 1)) for _ in range(c['n'])]
    return c

def run(ctx, c):
    n, es, k_ = c['n'], c['edges'], c['k']
    r = ctx.ex('partition').call('proj', len(es), [(u, a, float(w)) for u, a, w in es], k_, c['mem'])
    A, k = projection(n, c['t'], es)
    eq('number of projected edges', r['ret'], len(A) // 2)
    eq('number of edges stored', r['adj']['E'], len(A) // 2)
    eq('number of nodes', r['adj']['N'], n)
    for u in range(n):
        got = sorted(map(tuple, r['adj']['rows'][u]))
        want = sorted((v, x) for (a, v), x in A.items() if a == u)
        check(len(got) == len(want) and all(p[0] == q[0] and close(p[1], q[1], 1e-9) for p, q in zip(got, want)), 'projected neighbours of node %d: %r, expected %r', u, got, want)
    mem = check_state(r['end'], n, 'partition', k)
    eq('grouping', gen.canon(mem), gen.canon(c['mem']))
    for key, d in (('q', 0), ('qd', 1)):
        w = q_of(n, A, k, mem, d)
        check(abs(r[key] - w) < 1e-9, 'bipartite modularity (%s) %r, expected %r', key, r[key], w)
    check_roles(r['roles'], roles_of(n, A, mem))
    if any(sum(1 for e in es if e[1] == a) == 1 for a in range(c['t'])): ctx.label('team with one member')
    ctx.nontrivial(len(A) > 2 and len(set(mem)) > 1)

FACETS = [
    Facet('project', case(), run, quick=5000, thorough=100000, exes=['partition'], rule='several projected edges and modules'),
]
FACETS += gen.larger(FACETS, project=(200, 4000))
