import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from .c16 import planted
from .c17 import check_state, call as hist, matrix, bip_edges
from .c18 import q_of

PROPERTY = 'C20'

@st.composite
def annealing(draw):
    kind = draw(st.sampled_from(['any', 'any', 'any', 'planted', 'bip', 'bip']))
    if kind == 'bip': g = draw(bip_edges(8, 7))
    elif kind == 'planted': g = draw(planted())['g']
    else: g = draw(gen.graph(1, 8, 12, weighted=True))
    n = g['n']
    return dict(n=n, edges=g['edges'], M=n if kind == 'bip' else draw(st.one_of(st.just(n), st.integers(1, n))),
                norm=2 if kind == 'bip' else 1 if g['edges'] else 0,
                fac=draw(st.sampled_from([0.0, 0.2, 1.0])), Ti=draw(st.sampled_from([1.0 / n, 1.0, 0.01])),
                Tf=draw(st.sampled_from([0.5, 0.05, 1e-3, 1e-6])), Ts=draw(st.sampled_from([0.5, 0.8, 0.9])),
                proba=draw(st.sampled_from([0.0, 0.5, 1.0])), lim=draw(st.integers(1, 25)), seed=draw(st.integers(0, 10 ** 6)))

def call(ctx, c, **kw):
    c = dict(c, **kw)
    return ctx.ex('partition').call('anneal', c['n'], c['M'], len(c['edges']), [(u, v, float(w)) for u, v, w in c['edges']], c['norm'],
                                    c['seed'], float(c['fac']), float(c['Ti']), float(c['Tf']), float(c['Ts']), float(c['proba']), c['lim'], timeout=120)

def run(ctx, c):
    n, es = c['n'], c['edges']
    A, k = matrix(c) if es else ({}, [0.0] * n)
    if c['norm'] == 2 and not A: ctx.label('projection without links'); return
    r = call(ctx, c)
    eq('return code', r['rc'], 0)
    if c['norm'] == 2: ctx.label('projected bipartite network')
    m0 = check_state(r['start'], n, 'start', k, c['M'])
    m1 = check_state(r['end'], n, 'result', k, c['M'])
    m2 = check_state(r['compressed'], n, 'compressed result', k)
    eq('grouping after compression', gen.canon(m2), gen.canon(m1))
    q0, q1 = (q_of(n, A, k, m, 0) for m in (m0, m1))
    check(abs(r['q0'] - q0) < 1e-9 and abs(r['q1'] - q1) < 1e-9, 'modularity before/after: %r %r, expected %r %r', r['q0'], r['q1'], q0, q1)
    steps = [x.split('\t') for x in r['log'].split('\n') if x and not x.startswith('#')]
    steps = [float(x[1]) for x in steps]
    check(len(steps) == 0 or steps[0] == 0, 'the log starts at %r', steps[:1])
    check(q1 >= q0 - 1e-9, 'annealing made the partition worse: %r, started from %r', q1, q0)
    if steps:
        top = max(steps)
        check(q1 - q0 >= top - 1e-8 - 2e-6 * abs(top), 'the result improves by %r, but %r was reached on the way', q1 - q0, top)
        ctx.label('progress log checked')
    fin = [x for x in r['log'].split('\n') if x.startswith('# End of SA')]
    eq('final lines', len(fin), 1)
    f = float(fin[0].split(':')[1])
    check(abs(f - (q1 - q0)) <= 1e-8 + 2e-6 * abs(f), 'the log reports a final improvement of %r, the result improves by %r', f, q1 - q0)
    r2 = call(ctx, c)
    check(all(r2[x] == r[x] for x in ('end', 'log', 'start')), 'equal seeds gave different results')
    if c['M'] < n: ctx.label('fewer modules than nodes')
    if q1 > q0 + 1e-9: ctx.label('improved')
    ctx.nontrivial(bool(es) and q1 > q0 + 1e-9)

@st.composite
def good(draw):
    c = draw(st.one_of(st.builds(lambda g: dict(g=g), gen.graph(2, 7, min_edges=1, weighted=True)), planted()))
    g = c['g']; n = g['n']
    return dict(n=n, edges=g['edges'], cliques=c.get('cliques'), join=c.get('join'), M=draw(st.sampled_from([n, n, max(2, n // 2)])), norm=1, fac=1.0,
                Ti=1.0 / n, Tf=1e-200, Ts=0.95, proba=draw(st.sampled_from([0.0, 0.5, 1.0])), lim=25, seed=draw(st.integers(0, 10 ** 6)))

def run_good(ctx, c):
    n, es = c['n'], c['edges']
    W = 2 * sum(e[2] for e in es)
    k = [0.0] * n
    A = {}
    for u, v, w in es:
        k[u] += w / W; k[v] += w / W
        A[(u, v)] = A[(v, u)] = w / W
    def q(mem): return sum(A.get((u, v), 0.0) - k[u] * k[v] for u in range(n) for v in range(n) if u != v and mem[u] == mem[v])
    if c['cliques']: target = q(c['cliques']) if max(c['cliques']) < c['M'] else -9
    else: target = max(q(p) for p in gen.set_partitions(n) if max(p) < c['M'])
    best = -9
    for i in range(5):
        r = call(ctx, c, seed=c['seed'] + 104729 * i)
        mem = [x[1] for x in r['end']['nodes']]
        check(q(mem) >= min(0.0, target) - 1e-9 and q(mem) >= q([0] * n) - 1e-9, 'slow annealing returned modularity %r, worse than one module (%r) or all alone (0)', q(mem), q([0] * n))
        best = max(best, q(mem))
        if best >= target - 1e-9: break
    check(best >= target - 1e-9, 'five slow annealings found modularity %r; %r is possible', best, target)
    if c['cliques']: ctx.label('cliques')
    ctx.label('needed %d runs' % (i + 1))
    ctx.nontrivial(target > q([0] * n) + 1e-9)

@st.composite
def split(draw):
    c = draw(planted(equal=True))
    return dict(n=c['g']['n'], edges=c['g']['edges'], cliques=c['cliques'], seed=draw(st.integers(0, 10 ** 6)))

def run_split(ctx, c):
    n, es = c['n'], c['edges']
    for i in range(8):
        r = hist(ctx, dict(n=n, M=2, edges=es, norm=1, seed=c['seed'] + 31 * i, steps=[['G', 0, 1], ['A', 0, 0.05, 1e-9, 400]]))
        mem = [x[1] for x in r['steps'][1]['s']['nodes']]
        if gen.canon(mem) == gen.canon(c['cliques']): break
    else: check(False, 'eight nested annealings never separated two cliques, last result %r', mem)
    ctx.label('needed %d' % (i + 1))
    ctx.nontrivial()

FACETS = [
    Facet('split', split(), run_split, quick=300, thorough=3000, exes=['partition'], rule='every case'),
    Facet('anneal', annealing(), run, quick=4000, thorough=60000, exes=['partition'], rule='network with links, annealing improved the partition'),
    Facet('quality', good(), run_good, quick=1500, thorough=20000, exes=['partition'], rule='several modules are better than one'),
]
FACETS += gen.larger(FACETS, anneal=(80, 1500))
