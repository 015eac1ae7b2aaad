"""C39: layouts follow the spring-charge-drag dynamics and give finite, normalised coordinates."""
from math import sqrt, floor, isfinite
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netcheck import check_net
from pbt.netfile import netfile
from .c06 import comps
from .c36 import ok

PROPERTY = 'C39'

def finite(X, what):
    for u, x in enumerate(X): check(all(map(isfinite, x)), '%s: coordinates of node %d are %r', what, u, x)

def box_of(p, nbox, lim):
    """index of the box of a point, as column + nbox row + nbox^2 plane; None when within 1e-9 of a border between boxes"""
    b = 0; amb = False
    for d in reversed(range(len(p))):
        lo, hi = lim[d]
        if hi <= lo: k = 0
        else:
            lo2 = lo - (hi - lo) * 1e-5; hi2 = hi + (hi - lo2) * 1e-5
            x = (p[d] - lo2) / (hi2 - lo2) * nbox
            k = floor(x)
            if abs(x - round(x)) < 1e-9: amb = True
        b = b * nbox + k
    return b, amb

def limits(X, dim): return [(min(p[d] for p in X), max(p[d] for p in X)) for d in range(dim)]

def interactions(X, boxes, nbox, dim):
    """pairs of nodes in the same or adjacent boxes, within the cutoff when there are more than 2 boxes per side"""
    n = len(X); cut = sum(hi - lo for lo, hi in limits(X, dim)) / dim / nbox
    out = []; amb = False
    co = [[(b // nbox ** d) % nbox for d in range(dim)] for b in boxes]
    for u in range(n):
        for v in range(u):
            if max(abs(a - b) for a, b in zip(co[u], co[v])) > 1: continue
            d = sqrt(sum((X[u][i] - X[v][i]) ** 2 for i in range(dim)))
            if nbox > 2 and abs(d - cut) < 1e-9: amb = True
            if nbox <= 2 or d < cut: out.append((u, v, d))
    return out, amb

def field(n, E, X, boxes, nbox, dim):
    """reference energy and forces: springs along the links, screened repulsion between the pairs above"""
    F = [[0.0] * dim for _ in range(n)]; H = 0.0
    for u, v, w in E:
        for i in range(dim):
            d = X[v][i] - X[u][i]
            F[u][i] += w * d; F[v][i] -= w * d; H += w * d * d / 2
    I, amb = interactions(X, boxes, nbox, dim)
    eps = sqrt(n) / 1e4
    for u, v, d in I:
        H += 1 / n / sqrt(d * d + eps)
        for i in range(dim):
            f = 1 / n / (d * d + eps) * (X[u][i] - X[v][i]) / d
            F[u][i] += f; F[v][i] -= f
    return H, F, len(I), amb

coord = st.one_of(st.floats(0, 1, width=32), st.integers(-40, 40).map(lambda x: x / 8), st.floats(-30, 30, width=32))

@st.composite
def placed(draw, lo=2, hi=8, big=None, spread=True):
    g = draw(gen.graph(lo, hi, big, weighted=True, exotic=True))
    X = draw(st.lists(st.tuples(coord, coord, coord).map(list), min_size=g['n'], max_size=g['n'], unique_by=lambda p: (p[0], p[1])))
    return dict(g=g, X=[[float(x) for x in p] for p in X])

@st.composite
def fcase(draw):
    return dict(draw(placed(2, 8, 25)), dim=draw(st.sampled_from([2, 3])), nbox=draw(st.integers(1, 5)), remove=[])

def run_forces(ctx, c):
    g, X, dim, nbox = c['g'], [p[:c['dim']] for p in c['X']], c['dim'], c['nbox']
    n = g['n']; lim = limits(X, dim)
    bs = [box_of(p, nbox, lim) for p in X]
    l6 = [x for l in lim for x in l] + [0.0, 1.0] * (3 - dim)
    rem = list(range(0, n, 2))
    r = ctx.ex('layout').call('forces', dim, *gen.net_args(g), c['X'], nbox, l6, len(rem), rem)
    if all(hi > lo for lo, hi in lim) and not any(a for b, a in bs): eq('boxes of the nodes', r['in'], [b for b, a in bs])
    for b in r['in']: check(0 <= b < nbox ** dim, 'box %d of %d', b, nbox ** dim)
    eq('contents of the boxes', [sorted(x) for x in r['boxes']], [[u for u in range(n) if r['in'][u] == b] for b in range(nbox ** dim)])
    eq('contents of the boxes after removals', [sorted(x) for x in r['boxes2']], [[u for u in range(n) if r['in'][u] == b and u not in rem] for b in range(nbox ** dim)])
    eq('coordinates', r['xyz'], c['X'])
    check_net(r['net'], g['labels'], gen.wmap(g), 'the network')
    H, F, k, amb = field(n, g['edges'], X, r['in'], nbox, dim)
    if amb: return
    eq('potential energy', r['E'], H, 1e-9)
    top = 1 + max(abs(x) for f in F for x in f)
    for u in range(n):
        for i in range(dim): check(abs(r['F'][u][i] - F[u][i]) <= 1e-9 * top, 'force on node %d along axis %d is %r, expected %r', u, i, r['F'][u][i], F[u][i])
    ctx.nontrivial(len(g['edges']) > 0 and k < n * (n - 1) // 2 or nbox <= 2)

@st.composite
def acase(draw):
    c = draw(placed(1, 10, 24))
    s = draw(st.sampled_from([1.0, 0.05]))
    return dict(c, X=[[x * s for x in p] for p in c['X']], seed=draw(st.integers(0, 10**6)))

def run_arrange(ctx, c):
    g, X = c['g'], c['X']; n = g['n']
    r = ctx.ex('layout').call('arrange', *gen.net_args(g), X, c['seed'])
    Y = r['xyz']; finite(Y, 'arranged')
    check_net(r['net'], g['labels'], gen.wmap(g), 'the network')
    C = comps(n, gen.adj_sets(g), False)
    if len(C) == 1: eq('coordinates of a connected network', Y, X); return
    scale = 1 + max(abs(x) for p in X + Y for x in p)
    def circles(P):
        out = []
        for s in C:
            s = sorted(s); x = sum(P[u][0] for u in s) / len(s); y = sum(P[u][1] for u in s) / len(s)
            out.append((x, y, 1.02 * max(sqrt((P[u][0] - x) ** 2 + (P[u][1] - y) ** 2) for u in s)))
        return out
    for s in C:
        s = sorted(s)
        for u in s:
            for i in (0, 1): check(abs((Y[u][i] - Y[s[0]][i]) - (X[u][i] - X[s[0]][i])) < 1e-9 * scale, 'the component of node %d is not moved rigidly: node %d', s[0], u)
            eq('z coordinate', Y[u][2], X[u][2])
    A, B = circles(X), circles(Y)
    big = max(len(s) for s in C)
    def overlap(K): return sum(max(0.0, K[i][2] + K[j][2] - sqrt((K[i][0] - K[j][0]) ** 2 + (K[i][1] - K[j][1]) ** 2)) for i in range(len(K)) for j in range(i))
    # the centre is that of one of the largest components, before moving: the cost never goes up
    costs = []
    for i, s in enumerate(C):
        if len(s) != big: continue
        cost = lambda K: sum(sqrt((k[0] - A[i][0]) ** 2 + (k[1] - A[i][1]) ** 2) for k in K) + 1e5 * overlap(K)
        costs.append((cost(A), cost(B)))
    check(any(b <= a + 1e-6 * scale * (1 + a) for a, b in costs), 'arranging the components makes the layout worse: %r', costs)
    if overlap(A) > 0.01: ctx.label('overlapping before')
    for k in range(1, 4):       # the search is random: components that still overlap must come apart from some other seed
        if overlap(B) <= 1e-3: break
        check(k < 3, 'components still overlap by %g after being arranged from 3 seeds', overlap(B))
        B = circles(ctx.ex('layout').call('arrange', *gen.net_args(g), X, c['seed'] + 7919 * k)['xyz'])
    ctx.nontrivial(len(g['edges']) > 0)

@st.composite
def ncase(draw):
    n = draw(st.integers(1, 8))
    X = [[draw(coord) for _ in range(3)] for _ in range(n)]
    if draw(st.booleans()):
        d = draw(st.integers(0, 2))
        for p in X: p[d] = X[0][d]
    return dict(X=[[float(x) for x in p] for p in X], dim=draw(st.sampled_from([2, 3])), circ=draw(st.lists(st.tuples(coord, coord, st.floats(0, 3, width=32)), min_size=1, max_size=6)), tot=[draw(coord), draw(coord)])

def run_normal(ctx, c):
    X = c['X']; n = len(X)
    r = ctx.ex('layout').call('normal', c['dim'], *gen.net_args(dict(n=n, labels=gen.simple_labels(n), edges=[])), X)
    finite(r['xyz'], 'normalised')
    for i in range(3):
        lo, hi = min(p[i] for p in X), max(p[i] for p in X)
        for u in range(n):
            x = r['xyz'][u][i]
            if i >= c['dim']: eq('untouched coordinate', x, X[u][i])
            elif hi > lo: check(abs(x - (X[u][i] - lo) / (hi - lo)) < 1e-9, 'coordinate %d of node %d becomes %r', i, u, x)
            else: check(0 <= x <= 1, 'coordinate %d of node %d becomes %r', i, u, x)
    K = [[float(x) for x in k] for k in c['circ']]; t = [float(x) for x in c['tot']]
    r = ctx.ex('layout').call('circle', len(K), K, t)
    for i, k in enumerate(K):
        want = sqrt((k[0] - t[0]) ** 2 + (k[1] - t[1]) ** 2) + 1e5 * sum(max(0.0, k[2] + q[2] - sqrt((k[0] - q[0]) ** 2 + (k[1] - q[1]) ** 2)) for j, q in enumerate(K) if j != i)
        eq('cost of circle %d' % i, r['d'][i], want, 1e-9)
    ctx.nontrivial(n >= 2)

DIM = {1: 2, 2: 3, 3: 3}

@st.composite
def lcase(draw, hi=8, big=30, steps=st.integers(0, 9)):
    g = draw(gen.graph(1, hi, big, weighted=draw(st.booleans()), exotic=True, connected=draw(st.booleans())))
    return dict(g=g, method=draw(st.sampled_from([1, 2, 3])), drag=draw(st.sampled_from([0.05, 0.0, 0.5, 2.0])), dt=draw(st.sampled_from([0.05, 0.02, 0.1])),
                nsteps=draw(steps), seed=draw(st.integers(1, 10**6)), nbox=draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])))

def simulate(c, U):
    """reference dynamics; returns positions and whether the comparison is numerically safe"""
    g = c['g']; n = g['n']; dim = DIM[c['method']]; dt, drag = c['dt'], c['drag']
    nbox = c['nbox']
    if nbox <= 0:
        L = len(g['edges'])
        nbox = max(1, floor((n * n / (10.0 * L)) ** (1.0 / dim))) if L else 1
        if L and abs((n * n / (10.0 * L)) ** (1.0 / dim) - round((n * n / (10.0 * L)) ** (1.0 / dim))) < 1e-9: return None, False
    X = [list(U[dim * u:dim * u + dim]) for u in range(n)]; P = [list(p) for p in X]
    kz = 0.0; on = False; lim = [(0.0, 1.0)] * dim
    for step in range(c['nsteps']):
        bs = [box_of(p, nbox, lim) for p in X]
        if any(a for b, a in bs) and nbox > 1: return None, False
        H, F, k, amb = field(n, g['edges'], X, [b for b, a in bs], nbox, dim)
        if amb: return None, False
        T = 0.0
        Y = []
        for u in range(n):
            y = []
            for i in range(dim):
                f = F[u][i]
                if c['method'] == 2 and i == 2: f -= kz * (X[u][i] - 0.5)
                y.append((2 * X[u][i] - P[u][i] * (1 - drag * dt / 2) + f * dt * dt) / (1 + drag * dt / 2))
                T += ((y[i] - P[u][i]) / (2 * dt)) ** 2 / 2
            Y.append(y)
        P, X = X, Y
        lim = limits(X, dim)
        T /= n
        if on: kz += dt
        if min(abs(T / 1e-3 - 1), abs(T / 1e-5 - 1)) < 1e-6: return None, False
        if T < 1e-3: on = True
        if T < 1e-5: break
    return X, True

def norm(X):
    out = [list(p) for p in X]
    for i in range(len(X[0])):
        lo, hi = min(p[i] for p in X), max(p[i] for p in X)
        for u, p in enumerate(X): out[u][i] = (p[i] - lo) / (hi - lo) if hi > lo else None
    return out

def check_range(Y, dim, what='layout'):
    finite([p[:dim] for p in Y], what)
    for i in range(dim):
        v = [p[i] for p in Y]
        check(all(-1e-9 <= x <= 1 + 1e-9 for x in v), '%s: coordinates %r outside [0,1]', what, v)
        if len(v) > 1: check(abs(min(v)) < 1e-9 and abs(max(v) - 1) < 1e-9, '%s: coordinates along axis %d do not span [0,1]: %r', what, i, v)

def run_layout(ctx, c, exact=True):
    g = c['g']; n = g['n']; dim = DIM[c['method']]
    r = ctx.ex('layout').call('layout', c['method'], *gen.net_args(g), c['drag'], c['dt'], c['nsteps'], c['seed'], c['nbox'], dim * n)
    check_net(r['net'], g['labels'], gen.wmap(g), 'the network')
    Y = r['xyz']; vis = 3 if c['method'] == 3 else 2
    check_range(Y, vis)
    rows = [x.split() for x in r['text'].splitlines()]
    eq('printed labels', [x[0] for x in rows], g['labels'])
    eq('printed coordinates', [x[1:] for x in rows], [['%g' % x for x in p[:2]] for p in Y])
    ctx.label('method %d' % c['method'])
    if not exact or n == 1:
        ctx.nontrivial(n > 1); return
    X, safe = simulate(c, r['u'])
    if not safe: return
    C = [sorted(s) for s in comps(n, gen.adj_sets(g), False)]
    if len(C) == 1 or c['method'] == 3:
        Z = norm([p[:vis] for p in X])
        for u in range(n):
            for i in range(vis): check(Z[u][i] is None or abs(Z[u][i] - Y[u][i]) < 1e-6, 'node %d ends at %r, expected %r', u, Y[u], Z[u])
    else:       # components are moved rigidly and everything is rescaled axis by axis
        for i in range(2):
            D = [(X[u][i] - X[s[0]][i], Y[u][i] - Y[s[0]][i]) for s in C for u in s[1:]]
            if not D: continue
            a, b = max(D, key=lambda d: abs(d[0]))
            if abs(a) < 1e-6: continue
            for x, y in D: check(abs(x * b / a - y) < 1e-6 and b / a > 0, 'displacements within components along axis %d are %r', i, D)
    ctx.nontrivial(c['nsteps'] > 0 and len(g['edges']) > 0)

def run_long(ctx, c): run_layout(ctx, c, False)

@st.composite
def pcase(draw):
    c = draw(netfile(1, 6, 12))
    return dict(c, method=draw(st.sampled_from([1, 2, 3])), seed=draw(st.integers(1, 10**6)), step=draw(st.sampled_from([-1, 0.02])), nsteps=draw(st.sampled_from([0, 1, 5, 50])), damp=draw(st.sampled_from([-1, 0.5])))

def coords(out, n):
    R = [x.split() for x in out.splitlines()]
    check(len(R) >= n, 'output has %d lines', len(R))
    R = R[len(R) - n:]
    for r in R: check(len(r) == 3, 'line %r', r)
    return R

def close_range(R, n):
    for i in (1, 2):
        v = [float(r[i]) for r in R]
        check(all(0 <= x <= 1 for x in v), 'coordinates %r', v)
        if n > 1: check(min(v) == 0 and max(v) == 1, 'coordinates %r', v)

def run_prog(ctx, c):
    g = c['g']; n = g['n']
    args = ['net.dat', c['seed'], c['step'], c['nsteps'], c['damp'], c['method']]
    rc, out, err, files = ctx.run_prog('netlayout', args, {'net.dat': c['text']}, 'asan', timeout=60)
    ok('netlayout', rc, err)
    R = coords(out, n)
    eq('labels', sorted(r[0] for r in R), sorted(g['labels']))
    close_range(R, n)
    # the same layout, from the library, for the network in the order the program lists it
    lab = [r[0] for r in R]; old = [g['labels'].index(l) for l in lab]; new = {o: i for i, o in enumerate(old)}
    h = dict(n=n, labels=lab, edges=[[new[u], new[v], 1.0] for u, v, _ in g['edges']])
    d = lambda x: 0.05 if x < 0 else x
    r = ctx.ex('layout').call('layout', c['method'], *gen.net_args(h), d(c['damp']), d(c['step']), min(c['nsteps'], 5), c['seed'], 0, 0)
    if c['nsteps'] <= 5:
        for i in range(n):
            for k in (0, 1): check(abs(float(R[i][k + 1]) - r['xyz'][i][k]) < 1e-4 or len(comps(n, gen.adj_sets(h), False)) > 1, 'node %s is at %r, expected %r', lab[i], R[i], r['xyz'][i])
    ctx.label('method %d' % c['method'])
    ctx.nontrivial(n > 2 and len(g['edges']) > 0)

@st.composite
def mcase(draw):
    k = draw(st.integers(2, 3))
    return dict(nets=[draw(netfile(2, 4, None, exotic=False, min_edges=1)) for _ in range(k)])

def run_multi(ctx, c):
    fs = {'n%d' % i: x['text'] for i, x in enumerate(c['nets'])}
    rc, out, err, files = ctx.run_prog('multinetlayout', sorted(fs), fs, 'opt', timeout=300)
    ok('multinetlayout', rc, err)
    want = sorted({l for x in c['nets'] for l in x['g']['labels']})
    R = coords(out, len(want))
    eq('labels', sorted(r[0] for r in R), want)
    eq('number of lines', len(out.splitlines()), len(want))
    close_range(R, len(want))
    ctx.nontrivial(len(want) > max(x['g']['n'] for x in c['nets']))

NEED = {'netlayout': 6, 'multinetlayout': 2}
def usage_run(ctx, c):
    rc, out, err, files = ctx.run_prog(c['prog'], ['x'] * c['n'], {}, 'asan', timeout=60)
    check(rc > 0 and rc not in (97, 1), '%s with %d arguments ends with %r: %s', c['prog'], c['n'], rc, err[-200:])
    check('Use' in out + err, '%s with %d arguments does not show its use', c['prog'], c['n'])
    ctx.nontrivial()
usage = st.sampled_from(sorted(NEED)).flatmap(lambda p: st.integers(0, NEED[p] - 1).map(lambda n: dict(prog=p, n=n)))

X = ['layout']
FACETS = [
    Facet('usage', usage, usage_run, quick=24, thorough=60, progs=[(p, 'asan') for p in NEED], rule='every case'),
    Facet('forces', fcase(), run_forces, quick=1500, thorough=30000, exes=X, rule='linked, and some pair does not interact'),
    Facet('arrangement', acase(), run_arrange, quick=800, thorough=15000, exes=X, rule='two or more components, one with a link'),
    Facet('normalisation', ncase(), run_normal, quick=1000, thorough=15000, exes=X, rule='two or more nodes'),
    Facet('dynamics', lcase(), run_layout, quick=1500, thorough=30000, exes=X, rule='moved at least one step, with a link'),
    Facet('long runs', lcase(10, 40, st.sampled_from([100, 400, 1500])), run_long, quick=160, thorough=3000, exes=X, rule='two or more nodes'),
    Facet('netlayout', pcase(), run_prog, quick=200, thorough=3000, exes=X, progs=[('netlayout', 'asan')], rule='three or more nodes, linked'),
    Facet('multinetlayout', mcase(), run_multi, quick=24, thorough=200, progs=[('multinetlayout', 'opt')], rule='the networks differ in nodes'),
]
