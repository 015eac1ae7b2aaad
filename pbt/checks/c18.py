from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from .c17 import history, call, check_state, matrix, strengths

PROPERTY = 'C18'

def q_of(n, A, k, mem, diag):
    """Modularity from its definition, on normalised weights A and strengths k."""
    return sum(A.get((u, v), 0.0) - k[u] * k[v] for u in range(n) for v in range(n) if mem[u] == mem[v] and (u != v or diag))

def q_scratch(n, edges, z, k, mem, diag):
    A = {}
    for u, v, w in edges: A[(u, v)] = A[(v, u)] = w / z
    return q_of(n, A, k, mem, diag)

def run_moves(ctx, c):
    r = call(ctx, c)
    n = c['n']
    if not c['edges']: return
    A, k = matrix(c)
    if c['norm'] == 2 and not A: ctx.label('projection without links'); return
    z = 1.0 if c['norm'] else strengths(c)[1]
    if c['norm'] == 2: ctx.label('projected bipartite network')
    mem = [x[1] for x in r['start']['nodes']]
    q = q_of(n, A, k, mem, 0)
    scale = max(1.0, z if not c['norm'] else 1.0) ** 2 * (1 if c['norm'] else 1e4)
    tol = 1e-9 * scale
    def near(a, b): return abs(a - b) <= tol
    check(near(r['q'], q), 'modularity without diagonal %r, expected %r', r['q'], q)
    moved = 0
    for i, (s, t) in enumerate(zip(c['steps'], r['steps'])):
        mem2 = [x[1] for x in t['s']['nodes']]
        q2 = q_of(n, A, k, mem2, 0)
        what = 'step %d %r' % (i, s)
        check(near(t['q'], q2), '%s: modularity %r, from scratch %r', what, t['q'], q2)
        check(near(t['qd'], q_of(n, A, k, mem2, 1)), '%s: modularity with diagonal %r, from scratch %r', what, t['qd'], q_of(n, A, k, mem2, 1))
        if t['op'] in 'CG':
            check(near(t['pred'], q2 - q), '%s: predicted change %r, actual change %r', what, t['pred'], q2 - q)
            moved += mem2 != mem
            if t['op'] == 'C' and mem.count(t['b']) == 0 and t['a'] != t['b']: ctx.label('into an empty module')
            if t['op'] == 'G' and mem2 != mem: ctx.label('merge')
        elif t['op'] in 'SA' and t['pred']:
            check(near(t['pred'], q2 - q), '%s: predicted change of the split %r, actual change %r', what, t['pred'], q2 - q)
            ctx.label('split'); moved += 1
        mem, q = mem2, q2
    ctx.nontrivial(moved >= 2)

FACETS = [
    Facet('moves', history(max_ops=15, ops='CCCGGSAZ'), run_moves, quick=5000, thorough=100000, exes=['partition'],
          rule='network with links and at least two effective moves, merges or splits'),
]
FACETS += gen.larger(FACETS, moves=(200, 4000))
