"""C37: the utility programs report the true properties of their input."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netfile import netfile, seeds_matter, seed_lists, ring
from .c04 import div
from .c05 import bfs, node_betw
from .c06 import comps
from .c08 import has_swap
from .c24 import bip

PROPERTY = 'C37'
FL = st.sampled_from(['opt', 'opt', 'asan'])

def go(ctx, prog, args, files, fl, timeout=60):
    rc, out, err, outs = ctx.run_prog(prog, args, files, fl, timeout)
    check(rc == 0, '%s exits with %d: %s', prog, rc, err[-300:])
    for f, t in files.items(): eq('%s: input file %s' % (prog, f), outs[f].decode(), t)
    return out, outs

def table(text): return dict((l.rsplit(None, 1)) for l in text.splitlines() if l.split())
def near(what, got, want, tol=2e-6):
    """Printed value against the exact one; nan only where it is undefined."""
    x = float(got)
    if isinstance(want, float) and math.isnan(want): check(math.isnan(x), '%s: %s, expected an undefined value', what, got)
    else: check(abs(x - want) <= tol * max(1.0, abs(want)), '%s: %s, expected %.9g', what, got, want)

def lines_as_links(text, labels):
    """Adjacency list output -> set of label pairs, every one once."""
    S = set()
    for l in text.splitlines():
        f = l.split()
        check(len(f) == 2 and f[0] in labels and f[1] in labels, 'line %r', l)
        k = frozenset(f)
        check(len(k) == 2 and k not in S, 'link %r is printed twice, or joins a node to itself', l)
        S.add(k)
    return S

# ---- one-network programs
def run_net(ctx, c):
    g = c['g']; n = g['n']; A = gen.adj_sets(g); m = len(g['edges']); lab = g['labels']
    deg = [len(a) for a in A]; links = {frozenset((lab[u], lab[v])) for u, v, _ in g['edges']}
    F = {'net.dat': c['text']}; fl = c['fl']
    out, _ = go(ctx, 'countlinks', ['net.dat'], F, fl)
    f = out.split()
    eq('countlinks: nodes and links', [f[1], f[3]], [str(n), str(m)]); near('countlinks: average degree', f[6], 2 * m / n, 1e-5)
    B = node_betw(A)
    out, _ = go(ctx, 'nodeprop', ['net.dat'], F, fl)
    rows = [l.split() for l in out.splitlines()]
    eq('nodeprop: nodes', sorted(r[0] for r in rows), sorted(lab))
    for r in rows:
        u = lab.index(r[0])
        eq('nodeprop: degree of %s' % r[0], int(r[1]), deg[u]); near('nodeprop: betweenness of %s' % r[0], r[2], B[u], 1e-5)
    cs = [len(x) for x in comps(n, A, False)]
    out, _ = go(ctx, 'getgiant', ['net.dat'], F, fl)
    L = lines_as_links(out, lab)
    big = [x for x in comps(n, A, False) if len(x) == max(cs)]
    ok = [{k for k in links if k <= {lab[u] for u in x}} for x in big]
    check(L in ok, 'getgiant prints %r, the largest components are %r', sorted(map(sorted, L)), [sorted(map(sorted, x)) for x in ok])
    if n < 2: return
    Lap = np.zeros((n, n))
    for u in range(n):
        Lap[u, u] = deg[u]
        for v in A[u]: Lap[u, v] = -1
    ev = np.linalg.eigvalsh(Lap)
    out, _ = go(ctx, 'lapspec', ['net.dat'], F, fl)
    rows = [l.split() for l in out.splitlines()]
    eq('lapspec: rows', [r[0] for r in rows], [str(i + 1) for i in range(n)])
    for r, x in zip(rows, ev): near('lapspec: eigenvalue %s' % r[0], r[1], x, 2e-6)
    if m == 0: return
    out, _ = go(ctx, 'netprop', ['net.dat'], F, fl)
    T = table(out)
    eq('netprop: components', int(T['Num_components']), len(cs)); eq('netprop: size of the giant component', int(T['Size_GC']), max(cs))
    near('netprop: mean size of the others', T['Av_size_other'], (n - max(cs)) / (len(cs) - 1) if len(cs) > 1 else 0.0, 1e-5)
    eq('netprop: nodes', int(T['Nodes']), n); eq('netprop: links', int(T['Links']), m)
    near('netprop: average degree', T['Av_degree'], 2 * m / n, 1e-5)
    inv = sum(1 / d for u in range(n) for d in bfs(A, u).values() if d > 0)
    near('netprop: inverse path length', T['Inverse_path_length'], inv / (n * (n - 1)))
    tri = [sum(1 for v in A[u] for w in A[u] if v != w and w in A[v]) for u in range(n)]
    cc = [tri[u] / (deg[u] * (deg[u] - 1)) for u in range(n) if deg[u] > 1]
    near('netprop: clustering', T['Clustering'], div(sum(cc), len(cc)))
    es = [(u, v) for u in range(n) for v in A[u]]
    if len({deg[u] for u, _ in es}) > 1:
        M = len(es); mu = sum(deg[u] for u, v in es) / M
        near('netprop: assortativity', T['Assortativity'], (sum(deg[u] * deg[v] for u, v in es) / M - mu * mu) / (sum(deg[u] ** 2 for u, v in es) / M - mu * mu))
    mu = sum(B) / n
    near('netprop: mean betweenness', T['Betweenness_mean'], mu)
    near('netprop: deviation of the betweenness', T['Betweenness_std'], math.sqrt(sum((x - mu) ** 2 for x in B) / n), 1e-5)
    near('netprop: smallest betweenness', T['Betweenness_min'], min(B)); near('netprop: largest betweenness', T['Betweenness_max'], max(B))
    near('netprop: synchronizability', T['Synchronizability'], ev[-1] / ev[len(cs)], 1e-5)
    near('netprop: <k>/<k2>', T['K_K2'], 2 * m / sum(k * k for k in deg))
    ctx.label('components=%d' % min(3, len(cs)))
    ctx.nontrivial(m >= 3 and n >= 4)

@st.composite
def net_case(draw): return dict(draw(netfile(1, 9, 30)), fl=draw(FL))

# ---- two networks
@st.composite
def two(draw):
    a = draw(netfile(1, 8, None, exotic=False, min_edges=0))
    if draw(st.integers(0, 2)) == 0: return dict(a=a, b=draw(netfile(1, 8, None, exotic=False)), fl=draw(FL))
    g = a['g']; n = g['n']                    # the second: links of the first dropped and added, nodes reordered or renamed
    p = draw(st.permutations(list(range(n))))
    lab = [x if draw(st.integers(0, 4)) else 'zz' + x for x in g['labels']]
    keep = [e for e in g['edges'] if draw(st.integers(0, 3))]
    more = [[u, v] for u, v in draw(gen.edges(n))] if draw(st.booleans()) else []
    S = {tuple(sorted(e[:2])) for e in keep} | {tuple(sorted(e)) for e in more}
    text = ''.join('%s %s\n' % (lab[u], lab[v]) for u, v in S) + ''.join('%s %s\n' % (lab[u], lab[u]) for u in p)
    return dict(a=a, b=dict(g=dict(n=n, labels=lab, edges=[[u, v, 1.0] for u, v in sorted(S)]), text=text), fl=draw(FL))

def run_two(ctx, c):
    a, b = c['a']['g'], c['b']['g']
    out, _ = go(ctx, 'netcompare', ['A', 'B'], {'A': c['a']['text'], 'B': c['b']['text']}, c['fl'])
    T = {k.strip(): v.strip() for k, v in (l.split('=') for l in out.splitlines() if '=' in l)}
    N = [set(x['labels']) for x in (a, b)]; com = N[0] & N[1]
    L = [{frozenset((x['labels'][u], x['labels'][v])) for u, v, _ in x['edges']} for x in (a, b)]
    L = [{k for k in l if k <= com} for l in L]; lc = L[0] & L[1]
    for k, x in (('S_A', len(N[0])), ('S_B', len(N[1])), ('S_(A&B)', len(com)), ('L_A', len(L[0])), ('L_B', len(L[1])), ('L_(A&B)', len(lc))): eq('netcompare: ' + k, int(T[k]), x)
    for k, x in (('p_n(A|B)', div(len(com), len(N[1]))), ('p_n(B|A)', div(len(com), len(N[0]))), ('p_l(A|B)', div(len(lc), len(L[1]))), ('p_l(B|A)', div(len(lc), len(L[0])))): near('netcompare: ' + k, T[k], x)
    ctx.nontrivial(len(lc) > 0 and L[0] != L[1])

# ---- randomisation
@st.composite
def rnd(draw):
    c = draw(netfile(4, 9, None, min_edges=2))
    E = frozenset(tuple(sorted(e[:2])) for e in c['g']['edges'])
    if not has_swap(E):
        g = c['g']; n = g['n']; lab = ['qa', 'qb', 'qc', 'qd']
        g['n'] += 4; g['labels'] = g['labels'] + lab; g['edges'] = g['edges'] + [[n, n + 1, 1.0], [n + 2, n + 3, 1.0]]
        c['text'] = c['text'].rstrip('\n') + '\nqa qb\nqc qd\n'
    return dict(c, seed=draw(st.integers(1, 10**6)), fl=draw(FL))

def run_rnd(ctx, c):
    g = c['g']; lab = g['labels']
    out, _ = go(ctx, 'netrandomize', ['net.dat', c['seed']], {'net.dat': c['text']}, c['fl'])
    L = lines_as_links(out, lab)
    E = {frozenset((lab[u], lab[v])) for u, v, _ in g['edges']}
    for x in lab: eq('netrandomize: degree of %s' % x, sum(x in k for k in L), sum(x in k for k in E))
    eq('netrandomize: a second run with the same seed', go(ctx, 'netrandomize', ['net.dat', c['seed']], {'net.dat': c['text']}, 'opt')[0], out)
    ctx.nontrivial(L != E)

# ---- partitions
def ptext(groups): return ''.join(''.join('%s\n' % x for x in g) + '///\n' for g in groups)
def groups_of(lab, mem):
    return [[l for l, m in zip(lab, mem) if m == k] for k in sorted(set(mem))]

@st.composite
def mi(draw):
    n = draw(st.integers(1, 14)); lab = draw(gen.labels(n, exotic=True)); lab = [l if not l.startswith('///') else 'x' + l for l in lab]
    a, b = ([draw(st.integers(0, k)) for _ in range(n)] for k in (draw(st.integers(0, 4)), draw(st.integers(0, 4))))
    p = draw(st.permutations(list(range(n))))
    return dict(lab=lab, a=a, b=b, p=p, fl=draw(FL))

def run_mi(ctx, c):
    lab, a, b, p = c['lab'], c['a'], c['b'], c['p']; n = len(lab)
    F = {'p1': ptext(groups_of(lab, a)), 'p2': ptext(groups_of([lab[i] for i in p], [b[i] for i in p]))}
    out, _ = go(ctx, 'mutualinfo', ['p1', 'p2'], F, c['fl'])
    H = lambda x: -sum(x.count(v) / n * math.log(x.count(v) / n) for v in set(x))
    h = H(a) + H(b)
    near('mutualinfo', out.split('=')[1], 2 * (h - H(list(zip(a, b)))) / h if h > 0 else 1.0)
    ctx.nontrivial(len(set(a)) > 1 and len(set(b)) > 1)

@st.composite
def bm(draw):
    w = draw(st.booleans())
    b = draw(bip(7, 9, weighted=w, exotic=False, min_edges=2))
    # the file lists the links, so every node needs one
    for u in range(len(b['l1'])):
        if not any(e[0] == u for e in b['edges']): b['edges'].append([u, draw(st.integers(0, len(b['l2']) - 1)), 1.0])
    for v in range(len(b['l2'])):
        if not any(e[1] == v for e in b['edges']): b['edges'].append([draw(st.integers(0, len(b['l1']) - 1)), v, 1.0])
    if w: b['edges'] = [[u, v, float(draw(st.integers(1, 6))) / 2] for u, v, _ in b['edges']]
    for u, v, _ in draw(st.lists(st.sampled_from(b['edges']), max_size=2)): b['edges'].insert(draw(st.integers(0, len(b['edges']))), [u, v, float(draw(st.integers(1, 6))) / 2 if w else 1.0])   # listed twice: the first weight counts
    inv = draw(st.integers(0, 1))
    n = len(b['l2' if inv else 'l1'])
    return dict(b=b, w=w, inv=inv, mem=[draw(st.integers(0, 3)) for _ in range(n)], fl=draw(FL))

def run_bm(ctx, c):
    b, inv, mem = c['b'], c['inv'], c['mem']
    W = {}
    for u, v, w in b['edges']: W.setdefault((v, u) if inv else (u, v), w)
    lab = b['l2' if inv else 'l1']; n = len(lab)
    text = ''.join('%s %s%s\n' % (b['l1'][u], b['l2'][v], ' %g' % w if c['w'] else '') for u, v, w in b['edges'])
    team = {}
    for (u, a), w in W.items(): team.setdefault(a, {})[u] = w
    if not c['w']: team = {a: dict.fromkeys(t, 1.0) for a, t in team.items()}
    S = [sum(t.values()) for t in team.values()]
    z = sum(x * x for x in S) - sum(S)
    if abs(z) < 1e-9 or c['w'] and abs(z) < .05: return
    s = [sum(t.get(u, 0.0) for t in team.values()) for u in range(n)]
    q = 2 * math.fsum(sum(t[u] * t[v] for t in team.values() if u in t and v in t) / z - s[u] * s[v] / sum(S) ** 2 for u in range(n) for v in range(u) if mem[u] == mem[v])
    out, _ = go(ctx, 'bipartitemodularity' + ('_w' if c['w'] else ''), ['net', 'part', inv], {'net': text, 'part': ptext(groups_of(lab, mem))}, c['fl'])
    near('bipartitemodularity', out.split('=')[1], q, 1e-5)
    ctx.label('inverted' if inv else 'direct', 'weighted' if c['w'] else 'unweighted')
    ctx.nontrivial(len(set(mem)) > 1 and abs(q) > 1e-3)

# ---- generated bipartite networks
@st.composite
def mb(draw):
    nmod, size = draw(st.integers(1, 5)), draw(st.integers(1, 8))
    return dict(nmod=nmod, size=size, T=draw(gen.sizes(1, 8, 40)), m=draw(st.integers(0, nmod * size)), p=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])),
                seed=draw(st.integers(1, 10**6)), fl=draw(FL))

def run_mb(ctx, c):
    S1 = c['nmod'] * c['size']; T = c['T']
    _, outs = go(ctx, 'modularbipart', [c['nmod'], c['size'], T, c['m'], c['p'], c['seed']], {}, c['fl'])
    check('binet.net' in outs, 'modularbipart wrote no network')
    l = outs['binet.net'].decode().splitlines()
    eq('title', l[0].split(), ['*Vertices', str(S1 + T), str(S1)])
    v = [x.split() for x in l[1:1 + S1 + T]]
    eq('numbers', [int(x[0]) for x in v], list(range(1, S1 + T + 1)))
    check(len({x[1] for x in v}) == S1 + T, 'repeated labels')
    check(l[1 + S1 + T].lower() in ('*edges', '*arcs'), 'line %r', l[1 + S1 + T])
    E = [tuple(map(int, x.split())) for x in l[2 + S1 + T:]]
    check(len(set(E)) == len(E) and all(1 <= u <= S1 < a <= S1 + T for u, a in E), 'links %r', E)
    for a in range(S1 + 1, S1 + T + 1):
        mem = [u - 1 for u, x in E if x == a]
        eq('members of team %d' % a, len(mem), c['m'])
        if c['p'] >= 1: eq('members of one colour in team %d' % a, max([sum(u // c['size'] == k for u in mem) for k in range(c['nmod'])]), min(c['m'], c['size']) if c['m'] <= c['size'] else max(c['size'], max([sum(u // c['size'] == k for u in mem) for k in range(c['nmod'])])))
    ctx.nontrivial(c['nmod'] > 1 and 0 < c['m'] < S1)

# ---- the seed
def run_seed(ctx, c):
    def f(s):
        if c['prog'] == 'netrandomize': return go(ctx, 'netrandomize', ['net.dat', s], {'net.dat': ring(12)['text']}, 'opt')[0]
        return go(ctx, 'modularbipart', [3, 4, 6, 3, 0.5, s], {}, 'opt')[1]['binet.net']
    seeds_matter(c['prog'], f, c['seeds'])
    ctx.label(c['prog'])
    ctx.nontrivial()

def P(*names): return [(p, f) for p in names for f in ('opt', 'asan')]
FACETS = [
    Facet('network', net_case(), run_net, quick=500, thorough=8000, progs=P('countlinks', 'nodeprop', 'getgiant', 'lapspec', 'netprop'), rule='three links and four nodes'),
    Facet('comparison', two(), run_two, quick=800, thorough=10000, progs=P('netcompare'), rule='some links in common, some not'),
    Facet('randomisation', rnd(), run_rnd, quick=500, thorough=6000, progs=P('netrandomize'), rule='the network changes'),
    Facet('seed', st.fixed_dictionaries(dict(prog=st.sampled_from(['netrandomize', 'modularbipart']), seeds=seed_lists(4))), run_seed, quick=40, thorough=400, progs=[(p, 'opt') for p in ('netrandomize', 'modularbipart')], rule='every case'),
    Facet('mutual information', mi(), run_mi, quick=800, thorough=10000, progs=P('mutualinfo'), rule='both partitions have several groups'),
    Facet('bipartite modularity', bm(), run_bm, quick=900, thorough=10000, progs=P('bipartitemodularity', 'bipartitemodularity_w'), rule='several groups, modularity not zero'),
    Facet('modular networks', mb(), run_mb, quick=600, thorough=6000, progs=P('modularbipart'), rule='several modules, teams neither empty nor full'),
]
FACETS += gen.larger(FACETS, network=(64, 1000))
