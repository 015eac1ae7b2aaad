import math, itertools
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close, Raw
from pbt import gen
from pbt.netcheck import check_net
from .c13 import netpart, groups_of
from .c12 import check_part

PROPERTY = 'C14'

def modularity(n, W, mem):
    """Newman-Girvan modularity of a symmetric weight map {(u,v): w}."""
    M = sum(W.values())
    if M == 0: return float('nan')
    k = [0.0] * n
    for (u, v), w in W.items(): k[u] += w
    q = sum(w for (u, v), w in W.items() if mem[u] == mem[v]) / M
    s = {}
    for u in range(n): s[mem[u]] = s.get(mem[u], 0) + k[u]
    return q - sum(x * x for x in s.values()) / (M * M)

@st.composite
def meas(draw):
    c = draw(netpart(1, 9, 30, exotic=False))
    c['w'] = draw(st.sampled_from([1.0] + [e[2] for e in c['g']['edges']]))
    c['block'] = draw(st.booleans())
    return c

def run_meas(ctx, c):
    g, k, mem, w = c['g'], c['k'], c['mem'], c['w']
    n = g['n']
    r = ctx.ex('modules').call('pmeas', gen.net_args(g), k, mem, float(w), c['block'])
    W = gen.wmap(g)
    U = {e: 1 for e in W}
    eq('modularity', r['Q'], modularity(n, U, mem), 1e-9)
    eq('weighted modularity', r['QW'], modularity(n, W, mem), 1e-9)
    for u in range(n):
        for j in range(k):
            nb = [W[(u, v)] for v in range(n) if (u, v) in W and mem[v] == j]
            want = [len(nb), len(nb), sum(nb), sum(nb), sum(1 for x in nb if x == w)]
            check(all(close(a, b, 1e-9) for a, b in zip(r['ng'][u][j], want)), 'node %d to group %d: %r, expected %r', u, j, r['ng'][u][j], want)
    G = [[None] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            ls = [x for (u, v), x in W.items() if mem[u] == i and mem[v] == j]
            d = 2 if i == j else 1
            want = [len(ls) // d, sum(ls) / d, sum(1 for x in ls if x == w) // d]
            G[i][j] = want[0]
            check(all(close(a, b, 1e-9) for a, b in zip(r['gg'][i][j], want)), 'group %d to group %d: %r, expected %r', i, j, r['gg'][i][j], want)
    sz = [len(m) for _, m in groups_of(mem, k) if m]
    mu = sum(sz) / len(sz)
    want = [mu, math.sqrt(sum((x - mu) ** 2 for x in sz) / len(sz)), min(sz), max(sz)]
    check(all(abs(a - b) < 1e-6 for a, b in zip(r['gs'], want)), 'group size statistics %r, expected %r', r['gs'], want)
    if c['block']:
        size = [mem.count(i) for i in range(k)]
        pairs = [(i, j) for i in range(k) for j in range(k) if size[i] and size[j]]
        L = len(g['edges'])
        p = 2.0 * L / (n * (n - 1)) if n > 1 else float('nan')
        div = lambda a, b: a / b if b else float('nan')
        for t in 'nfpz':
            lines = r['block'][t].split('\n')[:-1]
            got = [x.split() for x in lines]
            eq('block model pairs', [(int(x[0]) - 1, int(x[1]) - 1) for x in got], pairs)
            for (i, j), x in zip(pairs, got):
                m = size[i] * (size[i] - 1) / 2.0 if i == j else size[i] * size[j]
                if t == 'n': v = G[i][j]
                elif t == 'f': v = div(G[i][j], L)
                elif t == 'p': v = div(G[i][j], m)
                else:
                    if not n > 1 or not 0 < p < 1: continue
                    v = div(G[i][j] - p * m, math.sqrt(m * p * (1 - p)))
                if not math.isfinite(v): continue
                check(abs(float(x[2]) - v) <= 1e-5 + 1e-5 * abs(v), 'block model %s of groups %d, %d: %s, expected %r', t, i, j, x[2], v)
        ctx.label('block model')
    ctx.nontrivial(bool(g['edges']) and len(sz) > 1)

@st.composite
def rem(draw):
    c = draw(netpart(1, 9, 14, exotic=False))
    c['mode'] = draw(st.sampled_from('wbi')); c['a'] = draw(st.integers(0, 10)); c['sym'] = draw(st.integers(0, 1))
    return c

def run_rem(ctx, c):
    g, k, mem = c['g'], c['k'], c['mem']
    a = c['a'] % k
    r = ctx.ex('modules').call('prem', gen.net_args(g), k, mem, Raw(c['mode']), a, c['sym'])
    W = gen.wmap(g)
    if c['mode'] == 'w':
        keep = {e: w for e, w in W.items() if mem[e[0]] != a and (mem[e[1]] != a or not c['sym'])}
    else:
        keep = {e: w for e, w in W.items() if mem[e[0]] == mem[e[1]]}
    check_net(r['net'], g['labels'], keep, 'network after removing links (%s)' % c['mode'])
    ctx.label('mode ' + c['mode'])
    ctx.nontrivial(0 < len(keep) < len(W))

@st.composite
def pairp(draw):
    n = draw(st.integers(1, 14))
    lab = draw(gen.labels(n, exotic=False))
    k = draw(st.integers(1, min(n, 6))); k2 = draw(st.integers(1, min(n, 6)))
    a = [draw(st.integers(0, k - 1)) for _ in range(n)]
    kind = draw(st.sampled_from(['free', 'free', 'same', 'relabel', 'perturb']))
    if kind == 'free': b = [draw(st.integers(0, k2 - 1)) for _ in range(n)]
    elif kind == 'same': b, k2 = list(a), k
    else:
        p = draw(st.permutations(list(range(k)))); b, k2 = [p[x] for x in a], k
        if kind == 'perturb':
            for u in draw(st.lists(st.integers(0, n - 1), max_size=3)): b[u] = draw(st.integers(0, k - 1))
    return dict(n=n, labels=lab, k=k, a=a, k2=k2, b=b, sep=draw(st.integers(0, 1)))

def run_pair(ctx, c):
    n, a, b = c['n'], c['a'], c['b']
    net = [n, c['labels'], 0]
    r = ctx.ex('modules').call('pcmp', net, c['k'], a, c['k2'], b, c['sep'])
    H = lambda x: -sum(x.count(v) / n * math.log(x.count(v) / n) for v in set(x))
    j = list(zip(a, b))
    h1, h2, h12 = H(a), H(b), H(j)
    want = 2 * (h1 + h2 - h12) / (h1 + h2) if h1 + h2 > 0 else 1.0
    for key in ('mi0', 'mi1', 'mi0r'):
        eq('mutual information ' + key, r[key], want, 1e-9)
        check(-1e-9 <= r[key] <= 1 + 1e-9, 'mutual information outside [0,1]: %r', r[key])
    if gen.canon(a) == gen.canon(b): eq('mutual information of identical partitions', r['mi0'], 1.0, 1e-9)
    # fraction correctly classified, for every way of breaking ties in the mapping
    opts = []
    for y in sorted(set(b)):
        ov = {x: sum(1 for p, q in j if p == x and q == y) for x in set(a)}
        m = max(ov.values())
        opts.append([(x, m) for x in ov if ov[x] == m])
    ways = math.prod(len(o) for o in opts)
    if ways <= 2000:
        vals = set()
        for pick in itertools.product(*opts):
            best = {}
            for x, m in pick: best[x] = max(best.get(x, 0), m)
            vals.add(sum(best.values()))
        check(any(close(r['cc'], v / n, 1e-9) for v in vals), 'correctly classified fraction %r, expected one of %r', r['cc'], sorted(v / n for v in vals))
        if len(vals) == 1: ctx.label('unambiguous classification')
    ctx.nontrivial(len(set(a)) > 1 and len(set(b)) > 1)

FACETS = [
    Facet('measures', meas(), run_meas, quick=4000, thorough=80000, exes=['modules'], rule='network with links, several groups'),
    Facet('removal', rem(), run_rem, quick=2500, thorough=40000, exes=['modules'], rule='some links are removed and some stay'),
    Facet('compare', pairp(), run_pair, quick=4000, thorough=80000, exes=['modules'], rule='both partitions have several groups'),
]
FACETS += gen.larger(FACETS, measures=(150, 2500), removal=(100, 2000))
