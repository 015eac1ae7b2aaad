import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close, Raw
from pbt import gen
from pbt.netcheck import check_net
from .c13 import netpart, groups_of
from .c12 import check_part
from .c14 import modularity
from .c06 import comps

PROPERTY = 'C16'

@st.composite
def planted(draw, equal=False):
    """Disjoint cliques, or cliques joined by single links."""
    sizes = [draw(st.integers(3, 5))] * 2 if equal else draw(st.lists(st.integers(3, 5), min_size=2, max_size=3))
    n = sum(sizes)
    perm = draw(st.permutations(list(range(n))))
    es, cl, o = [], [None] * n, 0
    firsts = []
    for i, s in enumerate(sizes):
        m = perm[o:o + s]; o += s; firsts.append(m)
        for a in range(s):
            cl[m[a]] = i
            for b in range(a): es.append([m[a], m[b], 1.0])
    join = draw(st.booleans())
    if join:
        for i in range(len(sizes) - 1): es.append([firsts[i][0], firsts[i + 1][1], 1.0])
    return dict(g=dict(n=n, labels=gen.simple_labels(n), edges=es), cliques=cl, join=join)

@st.composite
def sa(draw):
    kind = draw(st.sampled_from(['any', 'any', 'planted', 'stuck', 'hot']))
    if kind == 'stuck':             # cooled slowly, with few attempts: often ends below its best partition and goes back to it
        n = draw(st.integers(7, 12))
        c = dict(g=dict(n=n, labels=gen.simple_labels(n), edges=[[u, v, 1.0] for u, v in draw(gen.edges(n, min_edges=n))]))
        c.update(init='o', ngroup=0, coll=draw(st.sampled_from([0, 0, 0, 1])), out=draw(st.sampled_from('vvmsb')), Ts=draw(st.sampled_from([0.9, 0.95])),
                 Tf=1e-4, seed=draw(st.integers(1, 10 ** 6)))
        c['fac'] = draw(st.sampled_from([0.05, 0.5])) if c['coll'] == 0 else 0.02
        return c
    if kind == 'hot':               # stopped while still hot: often ends below its best partition
        n = draw(st.integers(7, 12))
        c = dict(g=dict(n=n, labels=gen.simple_labels(n), edges=[[u, v, 1.0] for u, v in draw(gen.edges(n, min_edges=n))]))
        c.update(init='o', ngroup=0, coll=draw(st.integers(0, 1)), out=draw(st.sampled_from('bs')), Ts=0.8, Tf=draw(st.sampled_from([0.02, 0.05])), fac=0.1, seed=draw(st.integers(1, 10 ** 6)))
        return c
    if kind == 'any': c = dict(g=draw(gen.graph(1, 7, 9, min_edges=draw(st.integers(0, 1)), exotic=False)))
    else: c = draw(planted())
    n = c['g']['n']
    c['init'] = draw(st.sampled_from('oor'))
    c['ngroup'] = draw(st.integers(0, n + 2)) if c['init'] == 'r' else draw(st.sampled_from([0, 1, n]))
    c['coll'] = draw(st.integers(0, 1)); c['out'] = draw(st.sampled_from('nnvvvmsbd'))
    c['fac'] = draw(st.sampled_from([0.1, 0.5, 1.0])); c['Ts'] = draw(st.sampled_from([0.8, 0.9, 0.95]))
    c['Tf'] = draw(st.sampled_from([0.05, 1e-3, 1e-4]))
    c['seed'] = draw(st.integers(1, 10 ** 6))
    return c

def call(ctx, c, **kw):
    c = dict(c, **kw)
    return ctx.ex('modules').call('sa', gen.net_args(c['g']), 2.0 / c['g']['n'], c['Tf'], c['Ts'], c['fac'], c['ngroup'], Raw(c['init']),
                                  c['coll'], Raw(c['out']), c['seed'], timeout=60)

def mem_of(ctx, r, g):
    n = g['n']
    seen = [None] * n
    for l, size, cnt, nodes in r['part']:
        check(size > 0, 'empty group %d in the result', l)
        for nl, num, ref in nodes:
            check(ref >= 0 and g['labels'][ref] == nl, 'entry %r does not point to its node', nl)
            check(seen[ref] is None, 'node %r is in two groups', nl)
            seen[ref] = l
    check(None not in seen, 'nodes missing from the result: %r', [g['labels'][u] for u in range(n) if seen[u] is None])
    return seen

def run_sa(ctx, c):
    g = c['g']; n = g['n']
    r = call(ctx, c)
    mem = mem_of(ctx, r, g)
    labs = [x[0] for x in r['part']]
    eq('distinct group labels', len(set(labs)), len(labs))
    check_part(r['part'], g, [(l, [u for u in range(n) if mem[u] == l]) for l in labs], 'result')
    eq('node group numbers', r['in'], mem)
    W = {e: 1 for e in gen.wmap(g)}
    Q = modularity(n, W, mem)
    eq('modularity of the result', r['Q'], Q, 1e-9)
    check_net(r['net'], g['labels'], gen.wmap(g), 'network afterwards')
    ng = c['ngroup'] if c['init'] == 'r' and c['ngroup'] else n
    check(len(labs) <= ng, '%d groups with %d allowed', len(labs), ng)
    if c['out'] == 'v' and W:
        lines = [x.split() for x in r['err'].split('\n') if x and not x.startswith('#')]
        check(len(lines) > 0 or n == 1, 'no progress lines')
        for x in lines:
            eq('columns of the progress line', len(x), 4)
            check(abs(float(x[1]) - float(x[2])) <= 3e-6, 'tracked modularity %s differs from recomputed %s at T=%s', x[1], x[2], x[3])
        ctx.label('tracked modularity checked')
    if 'tmp' in r and W:            # the best partition so far
        best = [x.split() for x in r['tmp'].split('///') if x.split()]
        eq('nodes in part.tmp', sorted(x for y in best for x in y), sorted(g['labels']))
        lab = {l: i for i, y in enumerate(best) for l in y}
        q = modularity(n, W, [lab[x] for x in g['labels']])
        check(q >= Q - 1e-9, 'part.tmp holds a partition of modularity %r, the result has %r', q, Q)
        # the end of every temperature step but the last is the beginning of the next, where 's' prints the modularity
        x = r if c['out'] == 's' else call(ctx, c, out='s')
        E = [float(y.split()[1]) for y in x['err'].split('\n') if y and not y.startswith('#')][1:]
        if E: check(q >= max(E) - 2e-6, 'part.tmp holds a partition of modularity %r, %r was reached on the way', q, max(E))
        if c['out'] != 's': eq('the partition saved with progress lines', x['tmp'], r['tmp'])
        if E and max(E) > Q + 2e-6: ctx.label('ends below its best')
    if 'Resetting' in r['err']: ctx.label('back to the best partition')
    r2 = call(ctx, c, out=c['out'] if c['seed'] % 2 else 'n')
    eq('same seed, same partition', r2['part'], r['part'])
    ctx.label('init ' + c['init'], 'collective' if c['coll'] else 'single moves')
    ctx.nontrivial(len(labs) > 1)

@st.composite
def good(draw):
    c = draw(st.one_of(st.builds(lambda g: dict(g=g), gen.graph(2, 6, min_edges=1, exotic=False)), planted()))
    c.update(init=draw(st.sampled_from('or')), ngroup=0, coll=1, out='n', fac=1.0, Ts=0.9, Tf=1e-5, seed=draw(st.integers(1, 10 ** 6)))
    return c

def best_possible(g):
    n = g['n']; W = {e: 1 for e in gen.wmap(g)}
    return max(modularity(n, W, p) for p in gen.set_partitions(n))

def run_good(ctx, c):
    g = c['g']; n = g['n']
    W = {e: 1 for e in gen.wmap(g)}
    target = modularity(n, W, c['cliques']) if 'cliques' in c else best_possible(g)
    got = []
    for k in range(4):
        r = call(ctx, c, seed=c['seed'] + 7919 * k, ngroup=n if c['init'] == 'r' else 0)
        mem = mem_of(ctx, r, g)
        q = modularity(n, W, mem)
        check(q >= -1e-9, 'slow annealing returned modularity %r, worse than a single group', q)
        got.append(q)
        if q >= target - 1e-9: break
    check(max(got) >= target - 1e-9, 'four slow annealings found modularity %r; %r is possible', max(got), target)
    if 'cliques' in c:
        ctx.label('cliques')
        if not c['join']: eq('disjoint cliques recovered', gen.canon(mem), gen.canon(c['cliques']))
    ctx.label('needed %d runs' % len(got))
    ctx.nontrivial(target > 1e-9)

@st.composite
def split(draw):
    if draw(st.integers(0, 2)) == 0: c = draw(planted()); c['k'] = 1; c['mem'] = [0] * c['g']['n']
    else: c = draw(netpart(2, 9, 14, exotic=False))
    c['a'] = draw(st.integers(0, 5)); c['cl'] = draw(st.integers(0, 1))
    c['Tf'] = draw(st.sampled_from([1e-1, 1e-3])); c['seed'] = draw(st.integers(1, 10 ** 6))
    return c

def run_split(ctx, c):
    g, n, k, mem = c['g'], c['g']['n'], c['k'], c['mem']
    a = c['a'] % k
    M = [u for u in range(n) if mem[u] == a]
    if not M: return
    intact = 0
    A = gen.adj_sets(g)
    sub = [[v for v in A[u] if mem[v] == a] if mem[u] == a else [] for u in range(n)]
    cs = [x for x in comps(n, sub, False) if min(x) in M]
    best = -9
    for s in range(10 if len(cs) > 1 and c['cl'] else 2):
        r = ctx.ex('modules').call('split', gen.net_args(g), k, mem, a, 1.0, c['Tf'], 0.8, c['cl'], c['seed'] + s)
        got = [[x[0] for x in y[3]] for y in r['split']]
        check(1 <= len(got) <= 2, 'split has %d groups', len(got))
        eq('members of the split', sorted(x for y in got for x in y), sorted(g['labels'][u] for u in M))
        check_part(r['part'], g, groups_of(mem, k), 'original partition')
        eq('original group numbers', r['in'], mem)
        side = {l: i for i, y in enumerate(got) for l in y}
        if all(len({side[g['labels'][u]] for u in x}) == 1 for x in cs) and all(got): intact += 1
        if 'cliques' in c and len(set(c['cliques'])) == 2:
            best = max(best, len({(side[g['labels'][u]], c['cliques'][u]) for u in M}) == 2 and len(set(side.values())) == 2)
    if len(cs) > 1 and c['cl']:
        check(intact > 0, 'disconnected group never split along its components in 10 tries')
        ctx.label('disconnected group')
    ctx.nontrivial(len(M) > 2)

@st.composite
def split2(draw):
    c = draw(planted(equal=True))
    c['seed'] = draw(st.integers(1, 10 ** 6)); c['cl'] = draw(st.integers(0, 1))
    return c

def run_split2(ctx, c):
    g, n = c['g'], c['g']['n']
    ok = 0
    for s in range(5):
        r = ctx.ex('modules').call('split', gen.net_args(g), 1, [0] * n, 0, 0.5, 1e-4, 0.9, c['cl'], c['seed'] + s)
        side = {x[0]: i for i, y in enumerate(r['split']) for x in y[3]}
        if gen.canon([side[l] for l in g['labels']]) == gen.canon(c['cliques']): ok += 1; break
    check(ok, 'two cliques never separated in 5 slow splits')
    ctx.nontrivial(c['join'])

FACETS = [
    Facet('anneal', sa(), run_sa, quick=1200, thorough=12000, exes=['modules'], rule='result has more than one group'),
    Facet('quality', good(), run_good, quick=250, thorough=4000, exes=['modules'], rule='some partition has positive modularity'),
    Facet('split', split(), run_split, quick=600, thorough=10000, exes=['modules'], rule='group of at least three nodes'),
    Facet('split_cliques', split2(), run_split2, quick=150, thorough=2500, exes=['modules'], rule='two cliques joined by one link'),
]
