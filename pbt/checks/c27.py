"""C27: the block-model samplers track their energy and link counts exactly."""
from math import lgamma, log
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netcheck import links_of

PROPERTY = 'C27'

def lchoose(n, k): return lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1)

def counts(n, edges, mem):
    """({(a,b): links}, {a: size}) over the groups present; a <= b."""
    size = {}
    for m in mem: size[m] = size.get(m, 0) + 1
    L = {}
    for u, v, *_ in edges:
        k = (min(mem[u], mem[v]), max(mem[u], mem[v]))
        L[k] = L.get(k, 0) + 1
    return L, size

def pairs_of(size):
    gs = sorted(size)
    for i, a in enumerate(gs):
        yield a, a, size[a] * (size[a] - 1) // 2
        for b in gs[i + 1:]: yield a, b, size[a] * size[b]

def energy_sbm(n, edges, mem, linC=0.0):
    L, size = counts(n, edges, mem)
    H = linC * len(size) - lgamma(n - len(size) + 1)
    for a, b, r in pairs_of(size): H += log(r + 1) + lchoose(r, L.get((a, b), 0))
    return H

def energy_sparse(n, edges, mem, A, B):
    """n (all, also empty) groups."""
    L, size = counts(n, edges, mem)
    H = -lgamma(n - len(size) + 1)
    c = 0
    for a, b, r in pairs_of(size):
        l = L.get((a, b), 0); c += 1
        H += lgamma(r + A + B) - lgamma(l + A) - lgamma(r - l + B)
    return H + (n * (n + 1) // 2 - c) * (lgamma(A + B) - lgamma(A) - lgamma(B))

def energy_k(n, edges, mem, K):
    size = len(set(mem)); H = -lgamma(n - size + 1)
    T = {}
    for u, v, w in edges:
        k = (min(mem[u], mem[v]), max(mem[u], mem[v]))
        T.setdefault(k, [0] * K)[int(w)] += 1
    for t in T.values(): H += lgamma(sum(t) + K) - sum(lgamma(x + 1) for x in t)
    return H + (n * (n + 1) // 2 - len(T)) * lgamma(K)

def check_net_same(ctx, g, d, what='network', weights=True):
    eq(what + ' labels', [x[0] for x in d['nodes']], list(g['labels']))
    want = sorted([u, v] + ([float(w)] if weights else []) for a, b, w in g['edges'] for u, v in ((a, b), (b, a)))
    got = sorted([i, e[0]] + ([e[3]] if weights else []) for i, a in enumerate(d['adj']) for e in a)
    eq(what + ' links', got, want)

def check_sbm_state(g, s, what, energy):
    n = g['n']; mem = s['in']
    check(all(0 <= x < n for x in mem), '%s: group of a node out of range: %r', what, mem)
    groups = [sorted(x) for x in s['mem']]
    eq(what + ': nodes of the groups', groups, [[i for i in range(n) if mem[i] == k] for k in range(n)])
    L, size = counts(n, g['edges'], mem)
    for k in range(n):
        lab, sz, tot, inn, out = s['cnt'][k]
        eq('%s: size of group %d' % (what, k), sz, size.get(k, 0))
        eq('%s: links within group %d' % (what, k), inn, L.get((k, k), 0))
        o = sum(v for (a, b), v in L.items() if a != b and k in (a, b))
        eq('%s: links leaving group %d' % (what, k), out, o)
    for a in range(n):
        for b in range(n):
            eq('%s: links between groups %d and %d' % (what, a, b), s['G'][a][b], L.get((min(a, b), max(a, b)), 0))
    H = energy(mem)
    tol = 1e-8 * max(1.0, abs(H)) + 1e-7
    check(abs(s['H'] - H) <= tol, '%s: the sampler carries energy %.12g, its partition %r has %.12g', what, s['H'], mem, H)
    check(abs(s['H0'] - H) <= tol, '%s: the reference energy function gives %.12g for %r, expected %.12g', what, s['H0'], mem, H)

@st.composite
def start(draw, n):
    kind = draw(st.sampled_from(['one', 'single', 'rand', 'rand', 'two', 'last']))
    if kind == 'one': return [draw(st.integers(0, n - 1))] * n
    if kind == 'last': return [n - 1] * (n - 1) + [draw(st.integers(0, n - 1))]
    if kind == 'single': return list(draw(st.permutations(list(range(n)))))
    k = min(2, n) if kind == 'two' else n
    return [draw(st.integers(0, k - 1)) for _ in range(n)]

def state_args(c):
    return gen.net_args(c['g']) + [c['mem'], c['seed']]

@st.composite
def case(draw, fam='m', ops='mmmmmdt', lo=2, hi=8, big=25, nops=8):
    g = draw(gen.graph(lo, hi, big))
    n = g['n']
    c = dict(g=g, mem=draw(start(n)), seed=draw(st.integers(0, 10**6)), fam=fam,
             linC=draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 3.0])),
             A=draw(st.sampled_from([0.5, 0.1, 0.02, 1.0, 2.5])), B=draw(st.sampled_from([0.5, 0.5, 1.0, 3.0])),
             LCS=draw(st.sampled_from([2, 10, 60, 500])), LFS=draw(st.sampled_from([2, 10, 1000])), LGS=draw(st.sampled_from([2, 8, 400])))
    c['ops'] = [[draw(st.sampled_from(ops)), draw(st.sampled_from([1, 1, 1, 2, 5]))] for _ in range(draw(st.integers(1, nops)))]
    return c

def run_sbm(ctx, c):
    g = c['g']; n = g['n']
    raw = [[Raw(o), f] for o, f in c['ops']]
    r = ctx.ex('missing').call('steps', Raw(c['fam']), *state_args(c), c['linC'], c['A'], c['B'], c['LCS'], c['LFS'], c['LGS'], len(raw), raw, timeout=60)
    if c['fam'] == 's': en = lambda mem: energy_sparse(n, g['edges'], mem, c['A'], c['B'])
    else: en = lambda mem: energy_sbm(n, g['edges'], mem, c['linC'])
    check_sbm_state(g, r['states'][0], 'start', en)
    moved = 0
    for i, (o, s) in enumerate(zip(c['ops'], r['states'][1:])):
        check_sbm_state(g, s, 'after operation %d %r' % (i, o), en)
        moved += gen.canon(s['in']) != gen.canon(r['states'][i]['in'])
        if len(set(s['in'])) == 1: ctx.label('one group')
        if len(set(s['in'])) == n: ctx.label('all singletons')
    check_net_same(ctx, g, r['net'])
    for o, _ in c['ops']: ctx.label('op ' + o)
    ctx.nontrivial(moved >= 2 and len(g['edges']) >= 1)

@st.composite
def kgraph(draw, lo=2, hi=7, big=12, K=None):
    K = draw(st.integers(1, 4)) if K is None else K
    g = draw(gen.graph(lo, hi, big))
    g = dict(g, edges=[[u, v, float(draw(st.integers(0, K - 1)))] for u, v, _ in g['edges']])
    return g, K

@st.composite
def kcase(draw):
    g, K = draw(kgraph())
    n = g['n']
    ops = 'mmmmmd' if n > 2 else 'm'
    return dict(g=g, K=K, mem=draw(start(n)), seed=draw(st.integers(0, 10**6)), LFS=draw(st.sampled_from([4, 12, 1000])),
                ops=[[draw(st.sampled_from(ops)), draw(st.sampled_from([1, 1, 2, 4]))] for _ in range(draw(st.integers(1, 6)))])

def run_k(ctx, c):
    g = c['g']; n = g['n']; K = c['K']
    raw = [[Raw(o), f] for o, f in c['ops']]
    r = ctx.ex('missing').call('ksteps', *state_args(c), K, c['LFS'], len(raw), raw, timeout=60)
    moved = 0
    for i, s in enumerate(r['states']):
        what = 'start' if i == 0 else 'after operation %d %r' % (i - 1, c['ops'][i - 1])
        mem = s['in']
        eq(what + ': group sizes', s['size'], [mem.count(k) for k in range(n)])
        eq(what + ': number of non-empty groups', s['ng'], len(set(mem)))
        G = [[[0] * n for _ in range(n)] for _ in range(K)]; N = [[[0] * n for _ in range(n)] for _ in range(K)]
        for u, v, w in g['edges']:
            k = int(w); a, b = mem[u], mem[v]
            G[k][a][b] += 1
            if a != b: G[k][b][a] += 1
            N[k][u][b] += 1; N[k][v][a] += 1
        eq(what + ': links of each value between groups', s['G'], G)
        eq(what + ': links of each value from nodes to groups', s['N'], N)
        H = energy_k(n, g['edges'], mem, K); tol = 1e-8 * max(1.0, abs(H)) + 1e-7
        check(abs(s['H'] - H) <= tol, '%s: the sampler carries energy %.12g, its partition %r has %.12g', what, s['H'], mem, H)
        check(abs(s['H0'] - H) <= tol, '%s: the reference energy function gives %.12g for %r, expected %.12g', what, s['H0'], mem, H)
        if i: moved += gen.canon(mem) != gen.canon(r['states'][i - 1]['in'])
    check_net_same(ctx, g, r['net'])
    ctx.nontrivial(moved >= 2 and len(g['edges']) >= 1)

# ---- overlapping layers: AND (a), OR (o), degeneracy only (d)
from functools import lru_cache
@lru_cache(None)
def _degen():
    """The number of pairs of partitions of n elements whose meet is discrete: sum_k s(n,k) Bell(k)^2, exactly."""
    N = 160
    bell = [1]; row = [1]
    for n in range(1, N + 1):
        new = [row[-1]]
        for x in row: new.append(new[-1] + x)
        row = new; bell.append(row[0])
    out = []; s = [1]
    for n in range(N + 1):
        out.append(sum(c * bell[k] ** 2 for k, c in enumerate(s)))
        s = [(s[k - 1] if k else 0) - (n * s[k] if k < len(s) else 0) for k in range(len(s) + 1)]
    return out
def log_degeneracy(n):
    return log(_degen()[n])
@lru_cache(None)
def harm(n): return sum(1.0 / i for i in range(1, n + 1))

def energy_mb(fam, n, edges, mem, linC=0.0):
    L, size = counts(n, edges, mem)
    H = linC * len(size) - lgamma(n - len(size) + 1) - log_degeneracy(len(size))
    for a, b, r in pairs_of(size):
        l = L.get((a, b), 0)
        H += log(r + 1) + lchoose(r, l)
        if fam == 'a': H -= log(harm(r + 1) - harm(l))
        elif fam == 'o': H -= log(harm(r + 1) - harm(r - l))
    return H

@st.composite
def mbcase(draw):
    fam = draw(st.sampled_from('aaood'))
    c = draw(case(fam, 'mmggdt', hi=7, big=16, nops=7))
    if fam == 'o': c['ops'] = [[dict(m='M', g='G', d='D', t='u')[o], f] for o, f in c['ops']]
    return c

def run_mb(ctx, c):
    g = c['g']; n = g['n']
    raw = [[Raw(o), f] for o, f in c['ops']]
    r = ctx.ex('od' if c['fam'] == 'd' else 'mb').call('steps', Raw(c['fam']), *state_args(c), c['linC'], c['LCS'], c['LFS'], len(raw), raw, timeout=60)
    moved = 0
    for i, s in enumerate(r['states']):
        what = 'start' if i == 0 else 'after operation %d %r' % (i - 1, c['ops'][i - 1])
        check_sbm_state(g, s, what, lambda m: energy_mb(c['fam'], n, g['edges'], m, c['linC']))
        if i: moved += gen.canon(s['in']) != gen.canon(r['states'][i - 1]['in'])
    check_net_same(ctx, g, r['net'])
    ctx.label({'a': 'AND', 'o': 'OR', 'd': 'degeneracy only'}[c['fam']])
    ctx.nontrivial(moved >= 2 and len(g['edges']) >= 1)

# ---- moves which gain so much that their weights have no floating-point value
@st.composite
def gaincase(draw):
    """A clique and isolated nodes in few groups: the isolated nodes have no group to go to but an empty one."""
    k = draw(st.integers(140, 230)); e = draw(st.integers(1, 3))
    n = k + e
    order = draw(st.sampled_from(['first', 'last']))
    clique = list(range(k)) if order == 'last' else list(range(e, n))
    skip = draw(st.integers(0, 3))
    edges = [[u, v, 1.0] for i, u in enumerate(clique) for v in clique[:i] if (u, v) != (clique[1], clique[0]) or skip]
    return dict(k=k, e=e, order=order, g=dict(n=n, labels=gen.simple_labels(n), edges=edges), mem=[draw(st.integers(0, n - 1))] * n, seed=draw(st.integers(0, 10**6)),
                fam=draw(st.sampled_from('msaod')), linC=0.0, A=0.5, B=0.5, LCS=30, LFS=1000, LGS=100, ops=draw(st.sampled_from([[['g', 1]], [['g', 1], ['g', 1]]])))

def run_gain(ctx, c):
    c = dict(c)
    if c['fam'] in 'ms':
        c['ops'] = [['s' if c['fam'] == 's' else 'g', f] for _, f in c['ops']]
        run_sbm(ctx, c)
    else:
        c['ops'] = [['G' if c['fam'] == 'o' else 'g', f] for _, f in c['ops']]
        run_mb(ctx, c)
    ctx.label({'m': 'standard', 's': 'sparse', 'a': 'AND', 'o': 'OR', 'd': 'degeneracy only'}[c['fam']])
    ctx.nontrivial()

from pbt.core import Raw
FACETS = [
    Facet('large gains', gaincase(), run_gain, quick=24, thorough=400, exes=['missing', 'mb', 'od'], rule='always'),
    Facet('layers', mbcase(), run_mb, quick=1600, thorough=40000, exes=['mb', 'od'], rule='at least one link and two operations that changed the partition'),
    Facet('metropolis', case('m', 'mmmmmdt'), run_sbm, quick=1600, thorough=40000, exes=['missing'], rule='at least one link and two operations that changed the partition'),
    Facet('gibbs', case('m', 'gggggT'), run_sbm, quick=1600, thorough=40000, exes=['missing'], rule='at least one link and two operations that changed the partition'),
    Facet('mixed', case('m', 'mmmgggdtT', hi=6, big=10), run_sbm, quick=800, thorough=20000, exes=['missing'], rule='at least one link and two operations that changed the partition'),
    Facet('sparse', case('s', 'sssssU'), run_sbm, quick=1600, thorough=40000, exes=['missing'], rule='at least one link and two operations that changed the partition'),
    Facet('kstate', kcase(), run_k, quick=1200, thorough=30000, exes=['missing'], rule='at least one link and two operations that changed the partition'),
]
FACETS += gen.larger(FACETS, metropolis=(100, 2000), gibbs=(100, 2000), sparse=(100, 2000), kstate=(100, 2000), layers=(100, 2000))
