"""C41: measures keep their meaning in large networks: hubs, dense and long networks, very many shortest paths, large groups and teams."""
import math, re
from fractions import Fraction
from collections import deque
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close

PROPERTY = 'C41'

# ---- families: each gives n and edges (u < v or not, each once)
def star(c):
    n, t = c['n'], min(c['t'], (c['n'] - 1) // 2)
    return n, [(0, i) for i in range(1, n)] + [(2 * i + 1, 2 * i + 2) for i in range(t)]
def twostars(c):
    n, t = c['n'], c['t'] % max(1, c['n'] - 2)
    return n, [(0, 1)] + [(0, i) for i in range(2, n)] + [(1, i) for i in range(2, 2 + t)]
def dense(c):
    n = max(4, c['n'] // 10); t = c['t'] % (n // 2)
    gone = {(2 * i, 2 * i + 1) for i in range(t)}
    return n, [(u, v) for u in range(n) for v in range(u + 1, n) if (u, v) not in gone]
def bip(c):
    a = max(1, c['n'] // 15); b = 2 + c['t'] % 200
    return a + b, [(u, a + v) for u in range(a) for v in range(b)]
def broom(c):
    n, t = c['n'], min(c['t'], c['n'] - 2)       # a path of t links and a star at its end
    return n, [(i, i + 1) for i in range(t)] + [(t, i) for i in range(t + 1, n)]
FAMILY = dict(star=star, twostars=twostars, dense=dense, bip=bip, broom=broom)

@st.composite
def fam(draw, names, lo, hi):
    return dict(f=draw(st.sampled_from(names)), n=draw(st.integers(lo, hi)), t=draw(st.integers(0, hi)))

def adj(n, es):
    A = [[] for _ in range(n)]
    for u, v in es: A[u].append(v); A[v].append(u)
    return A
def net_args(n, es): return [n, len(es), [x for e in es for x in e]]
def div(a, b): return a / b if b else math.nan
def bfs(A, s):
    d = [-1] * len(A); d[s] = 0; q = deque([s])
    while q:
        u = q.popleft()
        for v in A[u]:
            if d[v] < 0: d[v] = d[u] + 1; q.append(v)
    return d

def run_stats(ctx, c):
    n, es = FAMILY[c['f']](c); A = adj(n, es); S = [set(a) for a in A]; k = [len(a) for a in A]; m = len(es)
    r = ctx.ex('large').call('net', *net_args(n, es), W('AqL12kcCw'), timeout=120)
    eq('links', r['L'], m)
    eq('average squared degree', r['q'], sum(x * x for x in k) / n, 1e-12)
    tri = [0] * n
    for u, v in es:
        w = S[u] & S[v]
        tri[u] += len(w); tri[v] += len(w)
    big = [u for u in range(n) if k[u] > 1]
    eq('clustering coefficient', r['1'], div(sum(tri[u] / (k[u] * (k[u] - 1)) for u in big), len(big)), 1e-11)
    eq('transitivity', r['2'], div(sum(tri), sum(x * (x - 1) for x in k)), 1e-11)
    eq('mean neighbour degree', r['k'], div(sum(k[v] for v in A[0]), k[0]), 1e-12)
    s1 = sum(x * x for x in k); M = 2 * m
    se = 2 * sum(k[u] * k[v] for u, v in es); s3 = sum(x ** 3 for x in k)
    den = Fraction(s3, M) - Fraction(s1, M) ** 2
    if den: eq('assortativity', r['A'], float((Fraction(se, M) - Fraction(s1, M) ** 2) / den), 1e-6)
    eq('connected', r['c'], 1); eq('components', [r['C'], r['w']], [1, n])
    ctx.label(c['f'], *(['sum of cubes over 2^31'] if 2 * s3 >= 2 ** 31 else []), *(['sum of squares over 2^31'] if s1 >= 2 ** 31 else []))
    ctx.nontrivial(n >= 100)

# ---- very many shortest paths
@st.composite
def layers(draw):
    w = draw(st.lists(st.integers(1, 3), min_size=2, max_size=6)) * draw(st.integers(1, 40))
    return dict(w=w[:draw(st.integers(60, 110))], close=draw(st.sampled_from([False, False, True])))
def run_layers(ctx, c):
    L = []; n = 0
    for w in c['w']: L.append(list(range(n, n + w))); n += w
    es = [(u, v) for a, b in zip(L, L[1:]) for u in a for v in b]
    if c['close'] and len(L) > 2: es += [(u, v) for u in L[-1] for v in L[0]]
    A = adj(n, es); want = [0.0] * n; most = 0
    for s in range(n):
        d = bfs(A, s); order = sorted(range(n), key=lambda u: d[u]); sig = [0] * n; sig[s] = 1
        for u in order:
            for v in A[u]:
                if d[v] == d[u] + 1: sig[v] += sig[u]
        most = max(most, max(sig)); de = [0.0] * n
        for u in reversed(order):
            for v in A[u]:
                if d[v] == d[u] + 1: de[u] += float(Fraction(sig[u], sig[v])) * (1 + de[v])
            if u != s: want[u] += de[u]
    r = ctx.ex('large').call('net', *net_args(n, es), W('bB'), timeout=60)
    for u in range(n): eq('betweenness of node %d' % u, r['b'][u], want[u], 1e-9)
    mu = sum(want) / n
    eq('mean betweenness', r['B'][0], mu, 1e-9); eq('least betweenness', r['B'][2], min(want), 1e-9); eq('largest betweenness', r['B'][3], max(want), 1e-9)
    ctx.label(*(['over 2^31 shortest paths'] if most >= 2 ** 31 else []), *(['over 2^53 shortest paths'] if most >= 2 ** 53 else []))
    ctx.nontrivial(most >= 2 ** 16)

# ---- distances
def hist(text):
    m = re.search(r'#Average distance = (\S+)', text); z = re.search(r'#z = (\S+)', text)
    return {int(a): float(b) for a, b in re.findall(r'^(\d+) (\S+)$', text, re.M)}, float(m.group(1)), float(z.group(1))
def run_dist(ctx, c):
    n, es = FAMILY[c['f']](c); A = adj(n, es)
    what = 'hpiH' if n <= 400 else 'h'
    r = ctx.ex('large').call('net', *net_args(n, es), W(what), timeout=120)
    d0 = bfs(A, 0)
    _, av, z = hist(r['h'])
    eq('distances from a node: average', av, sum(d0) / (n - 1), 2e-6); eq('distances from a node: neighbours', z, len(A[0]), 1e-6)
    if len(what) > 1:
        D = [bfs(A, s) for s in range(n)]; pairs = n * (n - 1)
        eq('average path length', r['p'], sum(map(sum, D)) / pairs, 1e-9)
        eq('average inverse distance', r['i'], sum(1 / x for row in D for x in row if x) / pairs, 1e-9)
        h, av, z = hist(r['H'])
        eq('all distances: average', av, sum(map(sum, D)) / pairs, 2e-6)
        cnt = {}
        for row in D:
            for x in row:
                if x: cnt[x] = cnt.get(x, 0) + 1
        for x, y in cnt.items(): eq('share of distance %d' % x, h.get(x, 0.0), y / pairs, 2e-6) if y / pairs > 1e-5 else None
    ctx.label(c['f'], *(['over 10000 links long'] if max(d0) > 9999 else []))
    ctx.nontrivial(max(d0) >= 20)

# ---- components of a large network
def parts():
    return st.lists(st.tuples(st.integers(1, 160), st.sampled_from(['star', 'path'])).map(list), min_size=1, max_size=12)
def run_comp(ctx, c):
    es = []; n = 0
    for s, f in c['p']:
        es += [(n, n + i) if f == 'star' else (n + i - 1, n + i) for i in range(1, s)]; n += s
    if c['iso']: n += c['iso']
    sizes = [s for s, _ in c['p']] + [1] * c['iso']
    r = ctx.ex('large', c.get('fl', 'asan')).call('net', *net_args(n, es), W('cCws'), timeout=200)
    eq('connected', r['c'], int(len(sizes) == 1)); eq('number of components', r['C'], len(sizes))
    eq('size of the largest', r['w'], max(sizes)); eq('sizes', r['s'], sizes)
    ctx.label(*(['over 10001 nodes'] if n > 10001 else []))
    ctx.nontrivial(len(sizes) > 1 and n >= 100)

# ---- partitions of networks with many links
@st.composite
def blocks(draw):
    k = draw(st.integers(1, 3))
    s = [draw(st.integers(1, 260)) for _ in range(k)]
    return dict(s=s, full=[[draw(st.sampled_from([0, 1, 1, 2])) for _ in range(k)] for _ in range(k)])
def run_part(ctx, c):
    s, k = c['s'], len(c['s']); start = [sum(s[:i]) for i in range(k)]; n = sum(s)
    es = []
    for a in range(k):
        for b in range(a, k):
            f = c['full'][a][b]
            for i in range(s[a]):
                for j in range(i + 1 if a == b else 0, s[b]):
                    if f == 1 or f == 2 and (i + j) % 3 == 0: es.append((start[a] + i, start[b] + j))
    g = [a for a in range(k) for _ in range(s[a])]
    m = len(es)
    if not m: return
    A = adj(n, es); E = [[0] * k for _ in range(k)]
    for u, v in es:
        E[g[u]][g[v]] += 1
        if g[u] != g[v]: E[g[v]][g[u]] += 1
    deg = [2 * E[a][a] + sum(E[a][b] for b in range(k) if b != a) for a in range(k)]
    who = sorted({start[a] for a in range(k)})
    r = ctx.ex('large').call('part', *net_args(n, es), k, g, len(who), who, timeout=120)
    Q = sum(Fraction(E[a][a], m) - Fraction(deg[a], 2 * m) ** 2 for a in range(k))
    eq('modularity', r['Q'], float(Q), 1e-9); eq('weighted modularity', r['QW'], float(Q), 1e-9)
    for u, P in zip(who, r['P']):
        d = len(A[u]); t = [0] * k
        for v in A[u]: t[g[v]] += 1
        eq('participation of node %d' % u, P, 1 - sum((x / d) ** 2 for x in t) if d else 0.0, 1e-9)
    prob = 2 * m / (n * (n - 1))
    for a in range(k):
        for b in range(k):
            pos = s[a] * (s[a] - 1) / 2 if a == b else s[a] * s[b]
            sd = math.sqrt(max(0.0, pos * prob * (1 - prob)))
            want = dict(n=E[a][b], f=E[a][b] / m, e=E[a][b] / m - deg[a] * deg[b] / (4 * m * m), p=E[a][b] / pos if pos else None, z=(E[a][b] - pos * prob) / sd if sd > 1e-9 else None)
            for t, w in want.items():
                if w is None: continue
                row = [float(x.split()[2]) for x in r[t].split('\n') if x.split()[:2] == [str(a + 1), str(b + 1)]]
                eq('block model %s, %d-%d' % (t, a, b), row[-1] if len(row) == 1 else None, w, 3e-6)
    ctx.label(*(['over 23170 links'] if m > 23170 else []))
    ctx.nontrivial(m >= 1000 and k > 1)

# ---- information shared by partitions of many nodes
@st.composite
def infos(draw, lo, hi):
    n = draw(st.integers(lo, hi))
    def cut():
        c = sorted(draw(st.lists(st.integers(1, n - 1), max_size=4, unique=True)))
        return [b - a for a, b in zip([0] + c, c + [n])]
    return dict(n=n, a=cut(), b=cut(), shift=draw(st.sampled_from([0, 0, 1, n // 3])))
def run_info(ctx, c):
    n = c['n']
    r = ctx.ex('large', c.get('fl', 'asan')).call('info', n, len(c['a']), c['a'], c['shift'], len(c['b']), c['b'], timeout=200)
    ga = [i for i, s in enumerate(c['a']) for _ in range(s)]
    gb = [0] * n; x = 0
    for i, s in enumerate(c['b']):
        for _ in range(s): gb[(x + c['shift']) % n] = i; x += 1
    J = {}
    for p in zip(ga, gb): J[p] = J.get(p, 0) + 1
    h = lambda s: sum(x / n * math.log(n / x) for x in s)
    I = sum(x / n * math.log(x * n / (c['a'][i] * c['b'][j])) for (i, j), x in J.items()); H = h(c['a']) + h(c['b'])
    eq('mutual information', r['I'], 2 * I / H if H else 1.0, 1e-9)
    ctx.label(*(['squared nodes over 2^31'] if n * n >= 2 ** 31 else []))
    ctx.nontrivial(len(c['a']) > 1 and len(c['b']) > 1)

# ---- bipartite networks with huge teams
@st.composite
def bips(draw):
    return dict(teams=[[draw(st.integers(0, 2000)), draw(st.one_of(st.integers(1, 3000), st.integers(65000, 67000)) if draw(st.integers(0, 9)) == 0 else st.integers(1, 3000))] for _ in range(draw(st.integers(1, 4)))],
                q=draw(st.lists(st.tuples(st.integers(0, 300), st.integers(0, 3)).map(list), min_size=1, max_size=40, unique_by=lambda x: x[0])))
def run_bip(ctx, c):
    ms = [range(lo, lo + s) for lo, s in c['teams']]
    n1 = max(max(x) for x in ms) + 1; n1 = max(n1, max(u for u, _ in c['q']) + 1)
    pairs = [(u, t) for t, x in enumerate(ms) for u in x]
    r = ctx.ex('large').call('bip', n1, len(ms), len(pairs), [x for p in pairs for x in p], 4, len(c['q']), c['q'], timeout=60)
    size = [len(x) for x in ms]; T = {u: {t for t, x in enumerate(ms) if u in x} for u, _ in c['q']}
    sq = sum(x * (x - 1) for x in size); tot = sum(size)
    if not sq: return
    Q = Fraction(0)
    for i, (u, a) in enumerate(c['q']):
        for v, b in c['q'][:i]:
            if a == b: Q += Fraction(len(T[u] & T[v]), sq) - Fraction(len(T[u]) * len(T[v]), tot * tot)
    eq('bipartite modularity', r['Q'], float(2 * Q), 1e-9)
    ctx.label(*(['a team over 65535'] if max(size) > 65535 else []))
    ctx.nontrivial(Q != 0)

from pbt.core import Raw as W
EX = ['large']
huge_comp = st.fixed_dictionaries(dict(p=st.tuples(st.integers(10002, 10100), st.sampled_from(['star'])).map(lambda x: [list(x), [5, 'path']]), iso=st.integers(0, 20), fl=st.just('opt')))
huge_info = infos(46341, 50000).map(lambda c: dict(c, fl='opt', shift=0))
long_path = st.fixed_dictionaries(dict(f=st.just('broom'), n=st.integers(10003, 12000), t=st.integers(10001, 12000)))

FACETS = [
    Facet('statistics', fam(list(FAMILY), 4, 2000), run_stats, quick=120, thorough=1500, exes=EX, rule='100 nodes or more'),
    Facet('shortest paths', layers(), run_layers, quick=250, thorough=3000, exes=EX, rule='65536 shortest paths between two nodes'),
    Facet('distances', fam(['broom', 'star', 'twostars', 'dense'], 4, 900), run_dist, quick=200, thorough=2000, exes=EX, rule='a distance of 20 or more'),
    Facet('long path', long_path, run_dist, quick=4, thorough=40, exes=EX, rule='a distance of 20 or more'),
    Facet('components', st.fixed_dictionaries(dict(p=parts(), iso=st.integers(0, 5))), run_comp, quick=100, thorough=1000, exes=EX, rule='several components, 100 nodes or more'),
    Facet('many components', huge_comp, run_comp, quick=2, thorough=16, exes=[('large', 'opt')], rule='several components, 100 nodes or more'),
    Facet('partitions', blocks(), run_part, quick=150, thorough=2000, exes=EX, rule='several groups and 1000 links'),
    Facet('information', infos(10, 3000), run_info, quick=200, thorough=2000, exes=EX, rule='both partitions have several groups'),
    Facet('information, huge', huge_info, run_info, quick=6, thorough=80, exes=[('large', 'opt')], rule='both partitions have several groups'),
    Facet('bipartite', bips(), run_bip, quick=150, thorough=2000, exes=EX, rule='modularity not zero'),
]
