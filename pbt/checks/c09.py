import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, Raw
from pbt import gen
from pbt.netcheck import simple_symmetric
from .c24 import check_bip

PROPERTY = 'C09'

def seeds(): return st.integers(0, 2 ** 31)

@st.composite
def one(draw):
    k = draw(st.sampled_from('ERPBG'))
    c = dict(kind=k, seed=draw(seeds()))
    if k == 'E': c['S'] = draw(gen.sizes(0, 9, 60))
    elif k == 'R': c['S'] = draw(gen.sizes(0, 9, 40)); c['p'] = draw(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.9]))
    elif k == 'P': c['m'] = draw(st.integers(1, 5)); c['S'] = c['m'] + draw(gen.sizes(0, 10, 60))
    elif k == 'B':
        ng = draw(st.integers(1, 4)); c['sizes'] = draw(st.lists(st.integers(0, 6), min_size=ng, max_size=ng))
        c['q'] = symq(draw, ng, [0.0, 1.0, 0.5])
    else:
        c['k'] = draw(st.integers(2, 4)); c['g'] = draw(st.integers(2, 6))
        c['kin'] = draw(st.sampled_from([0.0, 1.0])) * (c['g'] - 1); c['kout'] = draw(st.sampled_from([0.0, 1.0])) * c['g'] * (c['k'] - 1)
    return c

def symq(draw, ng, vals):
    q = [[0.0] * ng for _ in range(ng)]
    for i in range(ng):
        for j in range(i + 1): q[i][j] = q[j][i] = draw(st.sampled_from(vals))
    return q

def args(c):
    k = c['kind']
    if k == 'E': return [c['S']]
    if k == 'R': return [c['S'], c['p']]
    if k == 'P': return [c['S'], c['m']]
    if k == 'B': return [len(c['sizes']), c['sizes'], c['q']]
    return [c['k'], c['g'], c['kin'], c['kout']]

def groups(c):
    if c['kind'] == 'B': return [i for i, s in enumerate(c['sizes']) for _ in range(s)]
    return [i for i in range(c['k']) for _ in range(c['g'])]

def qmat(c):
    """Probability of each link."""
    if c['kind'] == 'R': return lambda u, v: c['p']
    G = groups(c)
    if c['kind'] == 'B': return lambda u, v: c['q'][G[u]][G[v]]
    return lambda u, v: c['kin'] / (c['g'] - 1) if G[u] == G[v] else c['kout'] / (c['g'] * (c['k'] - 1))

def run_one(ctx, c):
    k = c['kind']
    d = ctx.ex('graph').call('model', Raw(k), c['seed'], *args(c))['net']
    E = simple_symmetric(d)
    S = c['S'] if k in 'ERP' else len(groups(c))
    eq('nodes', [x[:2] for x in d['nodes']], [[str(i + 1), i] for i in range(S)])
    if k == 'E': eq('links of an empty graph', E, set())
    elif k == 'P':
        m = c['m']; deg = [0] * S
        eq('number of links', len(E), m * (m - 1) // 2 + (S - m) * m)
        for u in range(m):
            for v in range(u): check((v, u) in E, 'initial nodes %d,%d not linked', v, u)
        for u in range(m, S): eq('links of node %d to earlier nodes' % u, sum(1 for v in range(u) if (v, u) in E), m)
    else:
        q = qmat(c)
        for u in range(S):
            for v in range(u + 1, S):
                if q(u, v) <= 0: check((u, v) not in E, 'link %d-%d with probability 0', u, v)
                if q(u, v) >= 1: check((u, v) in E, 'no link %d-%d with probability 1', u, v)
        if k in 'BG': eq('planted groups', [x[2] for x in d['nodes']], groups(c))
    ctx.label(k)
    ctx.nontrivial(S >= 3 and (k == 'E' or len(E) > 0))

@st.composite
def stat(draw):
    k = draw(st.sampled_from('RBG'))
    c = dict(kind=k, seed=draw(seeds()))
    ps = [0.05, 0.2, 0.5, 0.8, 0.95]
    if k == 'R': c['S'] = draw(st.integers(2, 12)); c['p'] = draw(st.sampled_from(ps))
    elif k == 'B': ng = draw(st.integers(1, 3)); c['sizes'] = draw(st.lists(st.integers(1, 5), min_size=ng, max_size=ng)); c['q'] = symq(draw, ng, ps)
    else:
        c['k'] = draw(st.integers(2, 4)); c['g'] = draw(st.integers(2, 5))
        c['kin'] = draw(st.sampled_from(ps)) * (c['g'] - 1); c['kout'] = draw(st.sampled_from(ps)) * c['g'] * (c['k'] - 1)
    return c

REPS = 1500
def run_stat(ctx, c):
    """Frequency of every single link within 6.5 standard deviations of its probability; total too."""
    r = ctx.ex('graph', 'opt').call('modelstat', Raw(c['kind']), c['seed'], REPS, *args(c))
    S = c['S'] if c['kind'] == 'R' else len(groups(c))
    q = qmat(c); mu = var = tot = 0.0
    for u in range(S):
        for v in range(u + 1, S):
            p = q(u, v); x = r['cnt'][u * S + v]
            eq('two-way count', r['cnt'][v * S + u], x)
            check(abs(x - REPS * p) <= 6.5 * math.sqrt(REPS * p * (1 - p)) + 3, 'link %d-%d present in %d of %d networks, probability %g', u, v, x, REPS, p)
            mu += REPS * p; var += REPS * p * (1 - p); tot += x
    check(abs(tot - mu) <= 6.5 * math.sqrt(var) + 3, 'total links %d over %d networks, expected %g', tot, REPS, mu)
    ctx.label(c['kind'])
    ctx.nontrivial(S >= 3)

@st.composite
def pa(draw):
    m = draw(st.integers(1, 3))
    return dict(m=m, seed=draw(seeds()), t=draw(st.integers(1, 2)))

def pa_exact(S, m):
    """Exact probability that the last node links to each earlier node, by enumeration of all histories."""
    res = {}
    def grow(deg, u, p, links):
        if u == S:
            for e in links: res[e] = res.get(e, 0) + p
            return
        def draws(k, chosen, dg, p):
            if k == m:
                grow(dg, u + 1, p, links | {(v, u) for v in chosen}); return
            w = {v: dg[v] for v in range(u) if v not in chosen and dg[v] > 0}
            if not w: w = {0: 1} if not chosen else {}       # very first link of m = 1
            Z = sum(w.values())
            for v, x in w.items():
                d2 = list(dg); d2[v] += 1; d2[u] += 1
                draws(k + 1, chosen | {v}, d2, p * x / Z)
        draws(0, frozenset(), deg, p)
    deg = [m - 1 if i < m else 0 for i in range(S)]
    grow(deg, m, 1.0, frozenset((a, b) for a in range(m) for b in range(a + 1, m)))
    return res

def run_pa(ctx, c):
    m = c['m']; S = m + c['t'] + (2 if m == 1 else 1)
    ex = pa_exact(S, m)
    reps = 4000
    r = ctx.ex('graph', 'opt').call('modelstat', Raw('P'), c['seed'], reps, S, m)
    for u in range(S):
        for v in range(u + 1, S):
            p = ex.get((u, v), 0.0); x = r['cnt'][u * S + v]
            check(abs(x - reps * p) <= 6.5 * math.sqrt(max(0, reps * p * (1 - p))) + 3, 'preferential attachment (S=%d, m=%d): link %d-%d in %d of %d networks, probability %g', S, m, u, v, x, reps, p)
    ctx.label('m=%d' % m); ctx.nontrivial()

# ---- modular bipartite networks
@st.composite
def bipmod(draw, stat=False):
    equal = draw(st.integers(0, 1)); nmod = draw(st.integers(1, 4))
    geom = draw(st.integers(0, 3)) == 0
    lo_size = 1 if not geom else 10
    sizes = [draw(st.integers(lo_size, lo_size + 5))] * nmod if equal else draw(st.lists(st.integers(lo_size, lo_size + 5), min_size=nmod, max_size=nmod))
    if geom: sizes = [max(s, -(-36 // nmod)) for s in sizes]
    S1 = sum(sizes)
    lo = draw(st.integers(0, S1)); hi = draw(st.integers(lo, S1))
    col = None
    if draw(st.booleans()):
        x = draw(st.lists(st.integers(0, 4), min_size=nmod, max_size=nmod)); x[0] += sum(x) == 0
        col = [y / sum(x) for y in x]
    return dict(equal=equal, sizes=sizes, col=col, S2=1500 if stat else draw(gen.sizes(0, 8, 30)), lo=-1 if geom else lo, hi=-1 if geom else hi,
                gp=draw(st.sampled_from([0.6, 0.9, 1.0])) if geom else 0.5, p=draw(st.sampled_from([0.0, 1.0, 0.5, 0.2, 0.9])), seed=draw(seeds()))

def bip_args(c):
    return [c['equal'], len(c['sizes'])] + ([c['sizes'][0]] if c['equal'] else c['sizes']) + ([1] + [float(x) for x in c['col']] if c['col'] else [0]) + \
           [c['S2'], c['lo'], c['hi'], float(c['gp']), float(c['p']), c['seed']]

def run_bip(ctx, c):
    r = ctx.ex('bipart').call('bgen', *bip_args(c))
    d = r['net']; S1 = sum(c['sizes']); mod = [i for i, s in enumerate(c['sizes']) for _ in range(s)]
    E = {(u, x[0]) for u, y in enumerate(d['s1']) for x in y[3]}
    check_bip(d, ['A%d' % (i + 1) for i in range(S1)], ['B%d' % (i + 1) for i in range(c['S2'])], {e: None for e in E}, 'modular bipartite network')
    eq('modules of the first set', [x[2] for x in d['s1']], mod)
    eq('set marks', r['iv'], [0] * S1 + [1] * c['S2'])
    for a, y in enumerate(d['s2']):
        m = len(y[3]); k = y[2]
        check(0 <= k < len(c['sizes']), 'team colour %d', k)
        check(not c['col'] or c['col'][k] > 0, 'team of a colour with probability 0')
        if c['lo'] >= 0: check(c['lo'] <= m <= c['hi'], 'team of %d members, allowed %d to %d', m, c['lo'], c['hi'])
        if c['p'] >= 1: eq('members of the team colour', sum(1 for x in y[3] if mod[x[0]] == k), min(m, c['sizes'][k]))
        if c['gp'] >= 1: eq('geometric team size with p=1', m, 0)
    ctx.label('geometric' if c['lo'] < 0 else 'uniform' if c['hi'] > c['lo'] else 'fixed')
    ctx.nontrivial(len(E) > 3 and len(c['sizes']) > 1)

def own_dist(S1, s, m, p):
    """Distribution of the number of own-colour members of a team of m."""
    cur = {0: 1.0}
    for j in range(m):
        nxt = {}
        for k, q in cur.items():
            o = (s - k) / (S1 - j)
            o = p + (1 - p) * o if k < s else 0.0
            if o > 0: nxt[k + 1] = nxt.get(k + 1, 0.0) + q * o
            if o < 1: nxt[k] = nxt.get(k, 0.0) + q * (1 - o)
        cur = nxt
    return cur

def near(what, x, n, p): check(abs(x - n * p) <= 6.5 * math.sqrt(max(0.0, n * p * (1 - p))) + 3, '%s: %d of %d, probability %g', what, x, n, p)

def run_bipstat(ctx, c):
    r = ctx.ex('bipart', 'opt').call('bgenstat', *bip_args(c))
    S1 = sum(c['sizes']); mod = [i for i, s in enumerate(c['sizes']) for _ in range(s)]; T = c['S2']; nmod = len(c['sizes'])
    col = c['col'] or [1 / nmod] * nmod
    size = {}
    for t in r['t']: size[len(t) - 1] = size.get(len(t) - 1, 0) + 1
    for k in range(nmod): near('teams of colour %d' % k, sum(1 for t in r['t'] if t[0] == k), T, col[k])
    for m in range(S1 + 1):
        p = c['gp'] * (1 - c['gp']) ** m if c['lo'] < 0 else (1 / (c['hi'] - c['lo'] + 1) if c['lo'] <= m <= c['hi'] else 0.0)
        near('teams of %d members' % m, size.get(m, 0), T, p)
    for k in range(nmod):
        ts = [t for t in r['t'] if t[0] == k]; s = c['sizes'][k]
        mu = var = 0.0; cnt = [0] * S1; own = 0; psum = [0.0, 0.0]; dist = {}
        for t in ts:
            m = len(t) - 1
            if m not in dist:
                d = own_dist(S1, s, m, c['p']); e = sum(x * q for x, q in d.items())
                dist[m] = (e, sum(x * x * q for x, q in d.items()) - e * e)
            e, v = dist[m]; mu += e; var += v
            psum[0] += e / s
            if S1 > s: psum[1] += (m - e) / (S1 - s)
            for u in t[1:]:
                cnt[u] += 1; own += mod[u] == k
        check(abs(own - mu) <= 6.5 * math.sqrt(max(0.0, var)) + 3, 'own-colour members of the %d teams of colour %d (module size %d of %d, p=%g): %d, expected %g', len(ts), k, s, S1, c['p'], own, mu)
        for u in range(S1):
            x = psum[0] if mod[u] == k else psum[1]
            check(abs(cnt[u] - x) <= 6.5 * math.sqrt(x) + 4, 'node %d (module %d) is in %d teams of colour %d, expected %g', u, mod[u], cnt[u], k, x)
    ctx.nontrivial(nmod > 1 and len(size) > 1)

FACETS = [
    Facet('bipartite', bipmod(), run_bip, quick=3000, thorough=40000, exes=['bipart'], rule='several modules and links'),
    Facet('bipartite_stat', bipmod(True), run_bipstat, quick=800, thorough=8000, exes=[('bipart', 'opt')], rule='1500 teams per case: colour, size, own-colour and per-node frequencies; non-trivial: several modules and sizes'),

    Facet('one', one(), run_one, quick=9000, thorough=60000, exes=['graph'],
          rule='one network of each model: size, simplicity, sure/impossible links, growth counts, planted groups; non-trivial: >=3 nodes with links'),
    Facet('stat', stat(), run_stat, quick=3000, thorough=6000, exes=[('graph', 'opt')],
          rule='1500 networks per case, frequency of every link within 6.5 sigma; non-trivial: >=3 nodes'),
    Facet('pa', pa(), run_pa, quick=400, thorough=600, exes=[('graph', 'opt')],
          rule='4000 preferential-attachment networks per case against exact enumeration of all growth histories; always non-trivial'),
]
