"""C32: recommender samplers carry exact energies and counts."""
from math import lgamma, log
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from pbt import gen
from .c24 import bip, bargs, check_bip, emap
from .c27 import start, lchoose

PROPERTY = 'C32'

def gcounts(E, m1, m2, K):
    """{(g1, g2): [links of each value]}"""
    C = {}
    for u, a, w in E: C.setdefault((m1[u], m2[a]), [0] * K)[int(w)] += 1
    return C

def energy2(n1, n2, E, m1, m2):
    H = -lgamma(n1 - len(set(m1)) + 1) - lgamma(n2 - len(set(m2)) + 1)
    for c in gcounts(E, m1, m2, 2).values(): H += log(sum(c) + 1) + lchoose(sum(c), c[1])
    return H

def energyk(n1, n2, E, m1, m2, K):
    H = n1 * n2 * lgamma(K) - lgamma(n1 - len(set(m1)) + 1) - lgamma(n2 - len(set(m2)) + 1)
    for c in gcounts(E, m1, m2, K).values(): H += lgamma(sum(c) + K) - lgamma(K) - sum(lgamma(x + 1) for x in c)
    return H

@st.composite
def ratings(draw, K, hi=5, big=None, exotic=False):
    b = draw(bip(hi, big, weighted=False, exotic=exotic, min_edges=draw(st.sampled_from([0, 3, 5, 8]))))
    return dict(b, edges=[[u, a, float(draw(st.integers(0, K - 1)))] for u, a, _ in b['edges']])

def matrices(n1, n2, E, m1, m2, K):
    N1 = [[[0] * n2 for _ in range(n1)] for _ in range(K)]; G1 = [[[0] * n2 for _ in range(n1)] for _ in range(K)]
    N2 = [[[0] * n1 for _ in range(n2)] for _ in range(K)]; G2 = [[[0] * n1 for _ in range(n2)] for _ in range(K)]
    for u, a, w in E:
        k = int(w)
        N1[k][u][m2[a]] += 1; N2[k][a][m1[u]] += 1; G1[k][m1[u]][m2[a]] += 1; G2[k][m2[a]][m1[u]] += 1
    return N1, N2, G1, G2

@st.composite
def case(draw, kind, ops):
    K = 2 if kind == '2' else draw(st.integers(1, 5))
    b = draw(ratings(K, 5, 12))
    n1, n2 = len(b['l1']), len(b['l2'])
    return dict(kind=kind, K=K, b=b, m1=draw(start(n1)), m2=draw(start(n2)), seed=draw(st.integers(0, 10**6)), LS=draw(st.sampled_from([2, 10, 5000])),
                LCS=draw(st.sampled_from([2, 10, 60])), LFS=draw(st.sampled_from([2, 10, 1000])),
                ops=[[draw(st.sampled_from(ops)), draw(st.sampled_from([1, 1, 1, 2, 5]))] for _ in range(draw(st.integers(1, 7)))])

def sargs(c): return [Raw(c['kind']), c['K']] + bargs(c['b']) + [c['m1'], c['m2'], c['seed'], c['LS'], c['LCS'], c['LFS']]

def run(ctx, c):
    b = c['b']; n1, n2, E, K = len(b['l1']), len(b['l2']), b['edges'], c['K']
    raw = [[Raw(o), f] for o, f in c['ops']]
    r = ctx.ex('recommend').call('steps', *sargs(c), len(raw), raw, timeout=60)
    moved = 0; prev = None
    for i, s in enumerate(r['states']):
        what = 'start' if i == 0 else 'after operation %d %r' % (i - 1, c['ops'][i - 1])
        m1, m2 = s['in1'], s['in2']
        for side, n, m, ng, g in ((1, n1, m1, s['ng1'], s['g1']), (2, n2, m2, s['ng2'], s['g2'])):
            check(len(m) == n and all(0 <= x < n for x in m), '%s: groups of set %d out of range: %r', what, side, m)
            eq('%s: nodes of the groups of set %d' % (what, side), [sorted(x[1:]) for x in g], [[j for j in range(n) if m[j] == k] for k in range(n)])
            eq('%s: sizes of the groups of set %d' % (what, side), [x[0] for x in g], [m.count(k) for k in range(n)])
            eq('%s: number of non-empty groups of set %d' % (what, side), ng, len(set(m)))
        for nm, M in zip(('N1', 'N2', 'G1', 'G2'), matrices(n1, n2, E, m1, m2, K)): eq('%s: rating counts %s' % (what, nm), s[nm], M)
        H = energy2(n1, n2, E, m1, m2) if c['kind'] == '2' else energyk(n1, n2, E, m1, m2, K)
        tol = 1e-8 * max(1.0, abs(H)) + 1e-7
        check(abs(s['H'] - H) <= tol, '%s: the sampler carries energy %.12g, its partitions %r %r have %.12g', what, s['H'], m1, m2, H)
        check(abs(s['H0'] - H) <= tol, '%s: the reference energy function gives %.12g for %r %r, expected %.12g', what, s['H0'], m1, m2, H)
        check(s['decor'] >= 1, '%s: decorrelation step %r', what, s['decor'])
        now = (gen.canon(m1), gen.canon(m2))
        moved += prev is not None and now != prev; prev = now
    check_bip(r['net'], b['l1'], b['l2'], emap(b), 'the ratings')
    for o, _ in c['ops']: ctx.label('op ' + o)
    if 1 in (n1, n2): ctx.label('one node in a set')
    ctx.nontrivial(moved >= 2 and len(E) >= 1)

@st.composite
def gaincase(draw):
    """Users of opposite tastes in one group: leaving it gains more than the exponential of any floating-point number."""
    K = draw(st.integers(2, 4)); n1 = draw(st.integers(2, 4)); n2 = draw(st.integers(300, 900))
    r = [draw(st.integers(0, K - 1)) for _ in range(n1)]
    flip = draw(st.booleans())
    E = [[u, a, float(r[u])] for u in range(n1) for a in range(n2)]
    c = dict(kind='k', K=K, m1=[draw(st.integers(0, n1 - 1))] * n1, m2=[draw(st.integers(0, n2 - 1))] * n2, seed=draw(st.integers(0, 10**6)), LS=10, LCS=10, LFS=1000)
    c['b'] = dict(l1=['u%d' % i for i in range(n1)], l2=['i%d' % i for i in range(n2)], edges=E)
    if flip:
        c['b'] = dict(l1=c['b']['l2'], l2=c['b']['l1'], edges=[[a, u, w] for u, a, w in E]); c['m1'], c['m2'] = c['m2'], c['m1']
    return dict(c, ops=[[draw(st.sampled_from('ggm')), 1]])

def run_gain(ctx, c):
    run(ctx, c)
    ctx.nontrivial(c['ops'][0][0] == 'g')

RULE = 'at least one rating and two operations that changed the partitions'
FACETS = [
    Facet('large gains', gaincase(), run_gain, quick=24, thorough=400, exes=['recommend'], rule='a Gibbs step'),
    Facet('two-state', case('2', 'mmmmmdt'), run, quick=1600, thorough=40000, exes=['recommend'], rule=RULE),
    Facet('K-state', case('k', 'mmmmmdt'), run, quick=1600, thorough=40000, exes=['recommend'], rule=RULE),
    Facet('K-state Gibbs', case('k', 'gggggT'), run, quick=1600, thorough=40000, exes=['recommend'], rule=RULE),
    Facet('K-state mixed', case('k', 'mmggdtT'), run, quick=800, thorough=20000, exes=['recommend'], rule=RULE),
]
FACETS += gen.larger(FACETS, two_state=(100, 2000), K_state=(100, 2000), K_state_Gibbs=(100, 2000))
