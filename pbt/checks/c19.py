import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from .c17 import call, check_state, strengths, edge_list
from .c15 import role
from .c18 import q_scratch

PROPERTY = 'C19'

def roles_of(n, A, mem):
    """Connectivity z-score and participation of every node. A: {(u,v): w} symmetric."""
    s = [[sum(A.get((u, v), 0.0) for v in range(n) if mem[v] == m) for m in sorted(set(mem))] for u in range(n)]
    idx = {m: i for i, m in enumerate(sorted(set(mem)))}
    out = []
    for u in range(n):
        x = s[u][idx[mem[u]]]
        xs = [s[v][idx[mem[v]]] for v in range(n) if mem[v] == mem[u]]
        mu = math.fsum(xs) / len(xs)
        sd = math.sqrt(math.fsum((y - mu) ** 2 for y in xs) / len(xs))
        if sd <= 1e-10 * (abs(mu) + 1e-300): z = 0.0
        else: z = (x - mu) / sd
        tot = sum(s[u])
        p = 1 - sum(y * y for y in s[u]) / (tot * tot) if tot else 0.0
        out.append((z, p))
    return out

def check_roles(got, want, what=''):
    for u, ((z, p, r), (wz, wp)) in enumerate(zip(got, want)):
        check(abs(z - wz) < 1e-6, '%sconnectivity of node %d: %r, expected %r', what, u, z, wz)
        check(abs(p - wp) < 1e-9, '%sparticipation of node %d: %r, expected %r', what, u, p, wp)
        ok = {role(wp + a, wz + b) for a in (-1e-9, 0, 1e-9) for b in (-1e-6, 0, 1e-6)}
        check(r in ok, '%srole of node %d is R%r, expected R%s', what, u, r + 1, [x + 1 for x in ok])

@st.composite
def case(draw):
    n, es = draw(edge_list(1, 10, 24))
    M = draw(st.integers(1, n))
    steps = [['C', u, draw(st.integers(0, M - 1))] for u in range(n)]
    if draw(st.booleans()): steps.append(['Z'])
    return dict(n=n, M=M, edges=es, norm=draw(st.sampled_from([1, 1, 0])), seed=1, steps=steps)

@st.composite
def hubcase(draw):
    """A module that is a big star (a hub) plus other modules around it."""
    n = draw(st.integers(9, 28)); sp = draw(st.integers(7, max(7, n // 2))); M = draw(st.sampled_from([2, 3, 4, 8, 16]))
    M = min(M, n)
    mem = [0] * (sp + 1) + [draw(st.integers(1, M - 1)) for _ in range(n - sp - 1)]
    es = [[0, v, 1.0] for v in range(1, sp + 1)]
    seen = {(0, v) for v in range(1, sp + 1)}
    for u, v in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=3 * n)):
        a, b = min(u, v), max(u, v)
        if a != b and (a, b) not in seen:
            seen.add((a, b)); es.append([a, b, 1.0])
    far = draw(st.integers(0, 4))
    for v in range(sp + 1, n):
        if (0, v) not in seen and draw(st.integers(0, 3)) < far: es.append([0, v, 1.0])
    return dict(n=n, M=M, edges=es, norm=1, seed=1, steps=[['C', u, mem[u]] for u in range(n)])

def run(ctx, c):
    r = call(ctx, c)
    n, es = c['n'], c['edges']
    k, z = strengths(c)
    rows = r['adj']['rows']
    eq('number of edges', r['adj']['E'], len(es))
    want = [[] for _ in range(n)]
    A = {}
    for u, v, w in es:
        x = w / z
        want[u].append((v, x)); want[v].append((u, x)); A[(u, v)] = A[(v, u)] = x
    for u in range(n):
        a, b = sorted(map(tuple, rows[u])), sorted(want[u])
        check(len(a) == len(b) and all(p[0] == q[0] and close(p[1], q[1], 1e-12) for p, q in zip(a, b)), 'neighbours of node %d: %r, expected %r', u, a, b)
    if not es: return
    mem = check_state(r['steps'][-1]['s'], n, 'end', k)
    tol = 1e-9 * (1 if c['norm'] else 1e4 * max(1, z) ** 2)
    for key, d in (('q', 0), ('qd', 1)):
        w = q_scratch(n, es, z, k, mem, d)
        check(abs(r['steps'][-1][key] - w) < tol, 'modularity (%s) %r, expected %r', key, r['steps'][-1][key], w)
    if c['norm']:
        check(abs(sum(x[2] for x in r['start']['nodes']) - 1) < 1e-9, 'strengths add up to %r', sum(x[2] for x in r['start']['nodes']))
        one = -sum(x * x for x in k)
        if len(set(mem)) == 1: check(abs(r['steps'][-1]['qd']) < 1e-9, 'one module: modularity %r', r['steps'][-1]['qd'])
    check_roles(r['roles'], roles_of(n, A, mem))
    for x in r['roles']: ctx.label('role R%d' % (x[2] + 1))
    ctx.nontrivial(len(set(mem)) > 1)

FACETS = [
    Facet('build', case(), run, quick=4000, thorough=80000, exes=['partition'], rule='network with links, several modules'),
    Facet('hubs', hubcase(), run, quick=1500, thorough=30000, exes=['partition'], rule='network with links, several modules'),
]
FACETS += gen.larger(FACETS, build=(200, 4000))
